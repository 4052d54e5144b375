// The command-line receiver: main() is analysed for one argument vector at a time with the modem, getopt and stdio replaced by
// models.  Every modem result (packet or not, CRC good or bad) forks the analysis; each way main() can end is printed with what
// it had written by then.  The comparison with the rule is in checks/P28.py.
static std::vector<std::string> strTab={""};
static int64_t strId(const std::string&s){ for(size_t i=0;i<strTab.size();i++) if(strTab[i]==s) return i; strTab.push_back(s); return strTab.size()-1; }
static std::string cstrOf(Interp&I,State&s,const Val&p){ std::string r; if(p.k!=Val::Ptr||!p.isc||!p.obj) throw Broken("string argument"); const Obj&o=I.robj(s,p.obj); for(uint64_t i=p.c;i<o.size;i++){ if(o.cells[i].k!=Cell::Const) return r+"<?>"; if(!o.cells[i].c) return r; r+=(char)o.cells[i].c; } return r+"<unterminated>"; }
static int constStr(Interp&I,State&s,const std::string&t,const char*name){ int id=I.newobj(s,name,t.size()+1,Obj::Global); auto&o=I.wobj(s,id); for(size_t i=0;i<=t.size();i++){ o.cells[i].k=Cell::Const; o.cells[i].c= i<t.size()?(uint8_t)t[i]:0; } return id; }
static int sc_cli(Interp&I){
  std::vector<std::string> argv; { std::string t; for(char c:os("argv","horus_demod|-m|binary|-|-")+"|"){ if(c=='|'){ argv.push_back(t); t.clear(); } else t+=c; } }
  int nin=oi("nin",8), blocks=oi("blocks",3), mfsk=oi("mfsk",4), outlen=oi("outlen",16); bool opens=oi("opens",1), keepErr=oi("stderr",0);
  State s0=I.init; auto&M=*I.M;
  // objects of the environment
  int fIn=I.newobj(s0,"stdin stream",1,Obj::Ext), fOut=I.newobj(s0,"stdout stream",1,Obj::Ext), fErr=I.newobj(s0,"stderr stream",1,Obj::Ext), modem=I.newobj(s0,"modem",1,Obj::Ext);
  int fFileIn=I.newobj(s0,"input file",1,Obj::Ext), fFileOut=I.newobj(s0,"output file",1,Obj::Ext);
  std::map<int,std::string> streams={{fIn,"stdin"},{fOut,"stdout"},{fErr,"stderr"},{fFileIn,"infile"},{fFileOut,"outfile"}};
  Type*pt=PointerType::getUnqual(M.getContext());
  auto setG=[&](const char*n,Val v,Type*t){ if(auto*g=M.getNamedValue(n)) if(I.gobj.count(g)) I.storeAt(s0,I.gobj[g],0,v,t); };
  Type*i32=Type::getInt32Ty(M.getContext());
  setG("stdin",Val::P(fIn,0),pt); setG("stdout",Val::P(fOut,0),pt); setG("stderr",Val::P(fErr,0),pt); setG("optarg",Val::P(0,0),pt); setG("optind",Val::I(32,1),i32); setG("opterr",Val::I(32,1),i32);
  int av=I.newobj(s0,"argv",8*(argv.size()+1),Obj::Stack); std::vector<int> argObj;
  for(size_t i=0;i<argv.size();i++){ int id=constStr(I,s0,argv[i],"argument"); argObj.push_back(id); I.storeAt(s0,av,8*i,Val::P(id,0),pt); } I.storeAt(s0,av,8*argv.size(),Val::P(0,0),pt);
  auto one=[](State st,Val v,std::vector<Out>&r){ Out o; o.st=std::move(st); o.ret=v; r.push_back(std::move(o)); return true; };
  // ---- ends
  std::set<std::string> ends;
  auto end=[&](State&st,const std::string&how){ std::string j="{\"exit\":"+js(how)+",\"ghost\":{"; bool first=true; for(auto&g:st.ghost){ if(!first) j+=","; first=false; j+=js(g.first)+":"; if(g.first.rfind("s:",0)==0) j+=js(strTab[g.second]); else j+=std::to_string(g.second); } j+="}}"; ends.insert(j); };
  // ---- text output
  auto emit=[&](State&st,const Val&f,const std::string&t){ std::string n="unknown"; if(f.k==Val::Ptr&&f.isc&&streams.count(f.obj)) n=streams[f.obj]; if(n=="stderr"&&!keepErr) return; auto&g=st.ghost["s:out:"+n]; g=strId(strTab[g]+t); };
  auto format=[&](State&st,const CallBase*CB,std::vector<Val>&a,size_t fi)->std::string{ std::string fmt=cstrOf(I,st,a[fi]),out; size_t ai=fi+1;
    for(size_t i=0;i<fmt.size();i++){ if(fmt[i]!='%'){ out+=fmt[i]; continue; } if(fmt[i+1]=='%'){ out+='%'; i++; continue; }
      size_t j=i+1; while(j<fmt.size()&&!isalpha((unsigned char)fmt[j])) j++; while(j<fmt.size()&&(fmt[j]=='h'||fmt[j]=='l'||fmt[j]=='z')) j++; char cv=fmt[j]; i=j; if(ai>=a.size()){ out+="<?>"; continue; } Val v=a[ai++];
      if(cv=='s') out+=cstrOf(I,st,v); else if(cv=='c'&&v.k==Val::Int&&v.isc) out+=(char)v.c; else if((cv=='d'||cv=='i'||cv=='u')&&v.k==Val::Int&&v.isc) out+=std::to_string(v.sc()); else if(strchr("fFeEgG",cv)&&v.k==Val::Fp){ std::string sp=fmt.substr(fmt.rfind('%',j),j-fmt.rfind('%',j)+1); char b[400]; snprintf(b,sizeof b,sp.c_str(),v.d); out+=b; } else out+="<?>"; }
    return out; };
  I.stubs["fprintf"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string t=format(st,CB,a,1); emit(st,a[0],t); return one(std::move(st),Val::I(32,1),r); };
  I.stubs["printf"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string t=format(st,CB,a,0); emit(st,Val::P(fOut,0),t); return one(std::move(st),Val::I(32,1),r); };
  I.stubs["fputs"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ emit(st,a[1],cstrOf(I,st,a[0])); return one(std::move(st),Val::I(32,1),r); };
  I.stubs["puts"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ emit(st,Val::P(fOut,0),cstrOf(I,st,a[0])+"\n"); return one(std::move(st),Val::I(32,1),r); };
  auto fputc_=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ emit(st,a[1],a[0].isc?std::string(1,(char)a[0].c):"<?>"); return one(std::move(st),a[0],r); };
  I.stubs["fputc"]=fputc_; I.stubs["putc"]=fputc_;
  I.stubs["putchar"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ emit(st,Val::P(fOut,0),a[0].isc?std::string(1,(char)a[0].c):"<?>"); return one(std::move(st),a[0],r); };
  I.stubs["fwrite"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string t=cstrOf(I,st,a[0]); if(a[1].isc&&a[2].isc&&t.size()>a[1].c*a[2].c) t.resize(a[1].c*a[2].c); emit(st,a[3],t); return one(std::move(st),a[2],r); };
  I.stubs["fflush"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ return one(std::move(st),Val::I(32,0),r); };
  I.stubs["setvbuf"]=I.stubs["setbuf"]=I.stubs["setlinebuf"]=I.stubs["fflush"];
  I.stubs["fclose"]=I.stubs["fflush"];
  I.stubs["perror"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ return one(std::move(st),Val(),r); };
  I.stubs["exit"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ end(st,a[0].isc?std::to_string((int)a[0].c):"?"); return true; };
  I.stubs["abort"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ end(st,"abort"); return true; };
  I.stubs["__assert_fail"]=I.stubs["abort"];
  // ---- input
  I.stubs["fopen"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string m=cstrOf(I,st,a[1]), n=cstrOf(I,st,a[0]); bool w=m.find('w')!=std::string::npos||m.find('a')!=std::string::npos; st.ghost[std::string("s:")+(w?"opened:out":"opened:in")]=strId(n); return one(std::move(st),Val::P(w?fFileOut:fFileIn,0),r); };
  I.stubs["fread"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ if(!a[1].isc||!a[2].isc) throw Broken("fread of unknown size"); uint64_t n=a[1].c*a[2].c; if(!J.check(st,a[0],n,true,CB)) return true; auto&o=J.wobj(st,a[0].obj); for(uint64_t i=0;i<n&&a[0].c+i<o.size;i++) o.cells[a[0].c+i].k=Cell::Top;
    int64_t k=st.ghost["reads"]++; st.ghost["s:from"]=strId(a[3].k==Val::Ptr&&streams.count(a[3].obj)?streams[a[3].obj]:"?"); auto&g=st.ghost["s:sizes"]; g=strId(strTab[g]+std::to_string(n)+" "); return one(std::move(st),Val::I(64,k<blocks?a[2].c:0),r); };
  // ---- libc helpers
  auto cmp=[&](int n,bool ci){ return [&,n,ci](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string x=cstrOf(I,st,a[0]),y=cstrOf(I,st,a[1]); if(n>2&&a[2].isc){ x=x.substr(0,a[2].c); y=y.substr(0,a[2].c); } if(ci){ for(auto&c:x) c=tolower(c); for(auto&c:y) c=tolower(c); } int q=x.compare(y); return one(std::move(st),Val::I(32,(uint32_t)(q<0?-1:q>0)),r); }; };
  I.stubs["strcmp"]=cmp(2,false); I.stubs["strcasecmp"]=cmp(2,true); I.stubs["strncmp"]=cmp(3,false); I.stubs["strncasecmp"]=cmp(3,true);
  I.stubs["atoi"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ return one(st,Val::I(32,(uint32_t)atoi(cstrOf(I,st,a[0]).c_str())),r); };
  I.stubs["strtol"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ if(a[1].k!=Val::Ptr||a[1].obj) throw Broken("strtol with end pointer"); return one(st,Val::I(64,(uint64_t)strtol(cstrOf(I,st,a[0]).c_str(),0,a[2].c)),r); };
  I.stubs["getopt_long"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){
    auto*gi=M.getNamedValue("optind"); auto*ga=M.getNamedValue("optarg"); int64_t sub=st.ghost["getopt:sub"]; int64_t ind=st.ghost.count("getopt:ind")?st.ghost["getopt:ind"]:1; std::string os_=cstrOf(I,st,a[2]); int ret=-1; Val arg=Val::P(0,0);
    if(ind<(int64_t)argv.size()){ std::string w=argv[ind];
      if(w.rfind("--",0)==0&&w.size()>2&&!sub){ std::string n=w.substr(2),v; bool has=false; auto e=n.find('='); if(e!=std::string::npos){ v=n.substr(e+1); n=n.substr(0,e); has=true; } ret='?'; ind++; 
        if(a[3].k==Val::Ptr&&a[3].obj) for(int64_t q=0;;q+=32){ Val np=I.loadAt(st,a[3].obj,a[3].c+q,pt); if(np.k!=Val::Ptr||!np.obj) break; if(cstrOf(I,st,np)!=n) continue; Val ha=I.loadAt(st,a[3].obj,a[3].c+q+8,i32), vv=I.loadAt(st,a[3].obj,a[3].c+q+24,i32); ret=(int)vv.sc();
          if(has){ if(ha.c==0){ ret='?'; break; } int64_t off=w.find('=')+1; arg=Val::P(argObj[ind-1],off); } else if(ha.c==1){ if(ind<(int64_t)argv.size()){ arg=Val::P(argObj[ind],0); ind++; } else ret='?'; } break; } }
      else if(w.size()>1&&w[0]=='-'&&w!="--"){ size_t p=sub?sub:1; char c=w[p]; size_t k=os_.find(c); p++; if(k==std::string::npos||c==':'){ ret='?'; } else { ret=c; bool need=k+1<os_.size()&&os_[k+1]==':', opt_=need&&k+2<os_.size()&&os_[k+2]==':'; if(need){ if(p<w.size()){ arg=Val::P(argObj[ind],p); p=w.size(); } else if(!opt_){ if(ind+1<(int64_t)argv.size()){ ind++; arg=Val::P(argObj[ind],0); p=argv[ind].size(); w=argv[ind]; } else ret='?'; } } }
        if(p>=w.size()){ ind++; sub=0; } else sub=p; } }
    st.ghost["getopt:sub"]=sub; st.ghost["getopt:ind"]=ind; if(gi) I.storeAt(st,I.gobj[gi],0,Val::I(32,ind),i32); if(ga) I.storeAt(st,I.gobj[ga],0,arg,pt); return one(std::move(st),Val::I(32,(uint32_t)ret),r); };
  I.stubs["getopt"]=I.stubs["getopt_long"];
  // ---- the modem
  auto open_=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ std::string t; for(auto&v:a) t+=(v.k==Val::Int&&v.isc?std::to_string(v.sc()):"?")+" "; st.ghost["s:open"]=strId(t); st.ghost["opens"]++; return one(std::move(st),opens?Val::P(modem,0):Val::P(0,0),r); };
  I.stubs["horus_open_advanced"]=open_; I.stubs["horus_open_advanced_sample_rate"]=open_; I.stubs["horus_open"]=open_;
  auto known=[&](const Val&v){ return v.k==Val::Ptr&&v.isc&&v.obj==modem; };
  auto value=[&](int64_t v){ return [&,v](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ if(!known(a[0])) end(st,"modem function called without a modem"); return one(std::move(st),Val::I(CB->getType()->isIntegerTy()?CB->getType()->getIntegerBitWidth():32,(uint64_t)v),r); }; };
  I.stubs["horus_nin"]=value(nin); I.stubs["horus_get_Fs"]=value(48000); I.stubs["horus_get_mFSK"]=value(mfsk); I.stubs["horus_get_max_demod_in"]=value(nin+2); I.stubs["horus_get_max_ascii_out_len"]=value(outlen);
  I.stubs["horus_set_verbose"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ st.ghost["verbose"]=a[1].isc?a[1].sc():-1; return one(std::move(st),Val(),r); };
  I.stubs["horus_close"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ st.ghost["closed"]++; return one(std::move(st),Val(),r); };
  I.stubs["horus_set_freq_est_limits"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ char b[80]; snprintf(b,80,"%g %g",a[1].k==Val::Fp?a[1].d:-1e9,a[2].k==Val::Fp?a[2].d:-1e9); st.ghost["s:limits"]=strId(b); return one(std::move(st),Val(),r); };
  I.stubs["horus_rx"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ int64_t i=st.ghost["blocks"]++; if(!known(a[0])) end(st,"modem function called without a modem"); st.ghost["quadrature"]=a[3].isc?a[3].sc():-1;
    if(!J.check(st,a[2],(uint64_t)2*nin*(a[3].isc&&a[3].c?2:1),false,CB)||!J.check(st,a[1],outlen,true,CB)) return true;
    for(int hit=0;hit<2;hit++) for(int ok=0;ok<(hit?2:1);ok++){ State t=st; auto&g=t.ghost["s:rx"]; g=strId(strTab[g]+(hit?(ok?"G":"B"):".")); if(hit){ auto&o=J.wobj(t,a[1].obj); std::string txt= strTab[t.ghost["s:open"]].rfind("0 ",0)==0 ? "4"+std::to_string(i)+"00FF0A" : "$$H"+std::to_string(i)+"%%,%s%d"; for(size_t q=0;q<=txt.size();q++){ o.cells[a[1].c+q].k=Cell::Const; o.cells[a[1].c+q].c= q<txt.size()?txt[q]:0; } t.ghost["crc"]=ok; } Out o; o.st=std::move(t); o.ret=Val::I(32,hit); r.push_back(std::move(o)); } return true; };
  I.stubs["horus_crc_ok"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ Val v=Val::I(32,st.ghost["crc"]); return one(std::move(st),v,r); };
  auto fl=fieldsOf(M,"MODEM_STATS");
  // each statistics record has values of its own: block b after the n-th call
  I.stubs["horus_get_modem_extended_stats"]=[&](Interp&J,const CallBase*CB,std::vector<Val>&a,State st,std::vector<Out>&r){ auto&o=J.wobj(st,a[1].obj); for(auto&c:o.cells) c.k=Cell::Top; int64_t b=st.ghost["blocks"]; auto fp=[&](int64_t off,double v){ J.storeAt(st,a[1].obj,a[1].c+off,Val::D(v),Type::getFloatTy(M.getContext())); };
    for(auto n:{"neyetr","neyesamp"}) if(fl.count(n)) setInt(J,st,a[1].obj,a[1].c+fl[n].first,4,2);
    if(fl.count("snr_est")) fp(fl["snr_est"].first,3.25+b); if(fl.count("clock_offset")) fp(fl["clock_offset"].first,-12.0-b);
    if(fl.count("f_est")) for(int i=0;i<4;i++) fp(fl["f_est"].first+4*i,1000.5+100*i+b); if(fl.count("rx_eye")) for(int i=0;i<2;i++) for(int j=0;j<2;j++) fp(fl["rx_eye"].first+4*(i*160+j),0.125*(2*i+j)); st.ghost["stats"]++; auto&g=st.ghost["s:stats"]; g=strId(strTab[g]+std::to_string(b)+" "); return one(std::move(st),Val(),r); };
  I.ctx="horus_demod"; for(size_t i=1;i<argv.size();i++) I.ctx+=" "+argv[i];
  auto o=I.run("main",{Val::I(32,argv.size()),Val::P(av,0)},s0);
  for(auto&x:o) end(x.st,x.ret.k==Val::Int&&x.ret.isc?std::to_string((int)x.ret.c):"?");
  for(auto&j:ends) printf("%s\n",j.c_str());
  nob+=ends.size(); return finish(I); }
