// irabs: a static analyser for LLVM IR -- abstract interpretation with
//   * constant propagation for control and addresses,
//   * an affine (GF(2)) domain for data bits: every bit of every integer is an
//     affine form over symbolic input bits; anything non-affine is a fresh bit,
//   * trace partitioning on the constants that are live, and joins elsewhere.
// No concrete or random inputs, no solver: the input bits stay symbolic, so a
// fact derived here holds for every value of them.
#pragma once
#include <ctime>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <map>
#include <array>
#include <unordered_map>
#include <set>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

using namespace llvm;
typedef int32_t F;              // interned affine form: 0 = const 0, 1 = const 1
typedef std::vector<uint32_t> FV;  // sorted variable ids; id 0 is the constant 1

struct Broken : std::runtime_error { using std::runtime_error::runtime_error; };

struct Imp { F form; bool val; };  // implied equation form == val

struct Forms {
  struct H { size_t operator()(const FV&v) const { size_t h=1469598103934665603ull; for(auto x:v){h^=x;h*=1099511628211ull;} return h; } };
  std::vector<FV> tab;
  std::unordered_map<FV,F,H> idx;
  std::unordered_map<uint64_t,F> xmemo, andmemo;
  uint32_t nvars=1;
  std::unordered_map<uint32_t,std::vector<Imp>> impT, impF;  // facts implied by var==1 / var==0
  std::map<std::vector<F>,uint32_t> conjmemo;
  std::map<std::vector<int64_t>,std::vector<F>> fnmemo;        // uninterpreted (table) functions
  Forms(){ get({}); get({0}); }
  F get(const FV&v){ auto it=idx.find(v); if(it!=idx.end()) return it->second; F id=tab.size(); tab.push_back(v); idx.emplace(v,id); return id; }
  uint32_t newvar(){ return nvars++; }
  F var(uint32_t v){ return get({v}); }
  F fresh(){ return var(newvar()); }
  F x(F a,F b){
    if(a==0) return b; if(b==0) return a; if(a==b) return 0;
    if(a>b) std::swap(a,b);
    uint64_t k=((uint64_t)(uint32_t)a<<32)|(uint32_t)b;
    auto it=xmemo.find(k); if(it!=xmemo.end()) return it->second;
    FV r; const FV&p=tab[a],&q=tab[b]; r.reserve(p.size()+q.size());
    size_t i=0,j=0; while(i<p.size()&&j<q.size()){ if(p[i]<q[j]) r.push_back(p[i++]); else if(p[i]>q[j]) r.push_back(q[j++]); else {i++;j++;} }
    while(i<p.size()) r.push_back(p[i++]); while(j<q.size()) r.push_back(q[j++]);
    F f=get(r); if(xmemo.size()>40000000) xmemo.clear(); xmemo[k]=f; return f;
  }
  F inv(F a){ return x(a,1); }
  bool isc(F a) const { return a<=1; }
  // a & b : exact when one side is constant / equal / complementary, otherwise a memoised fresh bit
  F land(F a,F b){
    if(a==0||b==0) return 0; if(a==1) return b; if(b==1) return a; if(a==b) return a; if(x(a,b)==1) return 0;
    if(a>b) std::swap(a,b);
    uint64_t k=((uint64_t)(uint32_t)a<<32)|(uint32_t)b;
    auto it=andmemo.find(k); if(it!=andmemo.end()) return it->second;
    uint32_t v=newvar(); impT[v]={{a,true},{b,true}}; F f=var(v); andmemo[k]=f; return f;
  }
  F lor(F a,F b){ return inv(land(inv(a),inv(b))); }
  // one bit that is 1 iff every form in fs is 0
  F allzero(std::vector<F> fs){
    std::sort(fs.begin(),fs.end()); fs.erase(std::unique(fs.begin(),fs.end()),fs.end());
    std::vector<F> g; for(F f:fs){ if(f==1) return 0; if(f!=0) g.push_back(f); }
    if(g.empty()) return 1; if(g.size()==1) return inv(g[0]);
    auto it=conjmemo.find(g); if(it!=conjmemo.end()) return var(it->second);
    uint32_t v=newvar(); conjmemo[g]=v; std::vector<Imp> im; for(F f:g) im.push_back({f,false}); impT[v]=im; return var(v);
  }
};
extern Forms G;
extern std::map<std::vector<F>,std::vector<F>> hexOf;

// ---------------------------------------------------------------- equations
struct Eqs {
  // reduced: pivot var -> form (pivot xor rest == 0)
  std::map<uint32_t,F> piv;
  bool bad=false;
  F red(F f) const {
    if(piv.empty()||f<=1) return f;
    // forms are small or pivots few: iterate over the smaller set
    bool again=true;
    while(again){ again=false; const FV&v=G.tab[f];
      if(v.size()<piv.size()*4){ for(uint32_t u:v){ auto it=piv.find(u); if(it!=piv.end()){ f=G.x(f,it->second); again=true; break; } } }
      else { for(auto&kv:piv){ const FV&w=G.tab[f]; if(std::binary_search(w.begin(),w.end(),kv.first)){ f=G.x(f,kv.second); again=true; break; } } }
      if(f<=1) break; }
    return f;
  }
  void add(F f,bool val){   // assert f == val
    std::vector<std::pair<F,bool>> todo={{f,val}};
    while(!todo.empty()){
      auto [g,v]=todo.back(); todo.pop_back();
      const FV fv=G.tab[g];
      { FV w=fv; bool vv=v; if(!w.empty()&&w[0]==0){ w.erase(w.begin()); vv=!vv; }
        if(w.size()==1){ auto&im=vv?G.impT:G.impF; auto it=im.find(w[0]); if(it!=im.end()) for(auto&i:it->second) todo.push_back({i.form,i.val}); } }
      F r=red(v?G.inv(g):g);
      if(r==1){ bad=true; return; }
      if(r==0) continue;
      uint32_t p=G.tab[r].back();   // highest var id as pivot: fresh bits are eliminated first
      for(auto&kv:piv){ const FV&w=G.tab[kv.second]; if(std::binary_search(w.begin(),w.end(),p)) kv.second=G.x(kv.second,r); }
      piv[p]=r;
    }
  }
  bool operator==(const Eqs&o) const { return piv==o.piv; }
};

// ------------------------------------------------------------------- values
struct Val {
  enum K:uint8_t {Undef,Int,Ptr,Fp,FpTop,Agg} k=Undef;
  uint8_t w=0;                 // int width
  bool isc=true;               // Int: constant? Ptr: constant offset?  Fp
  uint64_t c=0;                // Int const / Ptr offset (as int64)
  int obj=0;                   // Ptr object (0 = null)
  double d=0;
  double lo=-INFINITY,hi=INFINITY; F nan=-1;    // FpTop: range of the value unless it is NaN; form that is 1 iff NaN (-1: not tracked)
  std::shared_ptr<const std::vector<F>> bits;   // Int symbolic bits (w) / Ptr symbolic offset (64)
  std::shared_ptr<std::vector<Val>> agg;
  static Val I(unsigned w,uint64_t c){ Val v; v.k=Int; v.w=w; v.c= w>=64?c:(c&((1ull<<w)-1)); return v; }
  static Val S(const std::vector<F>&b){ bool cc=true; uint64_t c=0; for(size_t i=0;i<b.size();i++){ if(b[i]>1) cc=false; else if(b[i]) c|=1ull<<i; }
    if(cc) return I(b.size(),c); Val v; v.k=Int; v.w=b.size(); v.isc=false; v.bits=std::make_shared<std::vector<F>>(b); return v; }
  static Val P(int obj,int64_t off){ Val v; v.k=Ptr; v.obj=obj; v.c=(uint64_t)off; v.w=64; return v; }
  static Val D(double d){ Val v; v.k=Fp; v.d=d; return v; }
  static Val DT(){ Val v; v.k=FpTop; return v; }
  static Val R(double lo,double hi,F nan){ Val v; v.k=FpTop; v.lo=lo; v.hi=hi; v.nan=nan; return v; }
  F bit(unsigned i) const { if(isc) return (c>>i)&1; return (*bits)[i]; }
  std::vector<F> all() const { std::vector<F> r(w); for(unsigned i=0;i<w;i++) r[i]=bit(i); return r; }
  int64_t sc() const { if(w>=64) return (int64_t)c; uint64_t s=1ull<<(w-1); return (int64_t)((c^s)-s); }
};

struct Cell { enum K:uint8_t {Undef,Const,Sym,Ptr,Top,Flt} k=Undef; uint8_t c=0; int32_t id=0;
  bool operator==(const Cell&o) const { return k==o.k&&(k==Undef||k==Top||(c==o.c&&id==o.id)); } };

struct Obj { std::string name; uint64_t size=0; enum {Heap,Stack,Global,Ext} kind=Global; bool freed=false; bool ro=false; const Function*fn=nullptr;
  std::vector<Cell> cells; };

struct State {
  std::vector<std::shared_ptr<Obj>> objs;
  Eqs eqs;
  std::set<int> part;      // objects whose constant contents partition traces
  std::map<std::string,int64_t> ghost;
};

struct Event { std::string kind,where,detail; bool operator<(const Event&o) const { return std::tie(kind,where,detail)<std::tie(o.kind,o.where,o.detail);} };

struct Out { State st; Val ret; };

struct FnInfo {
  const Function*f;
  std::map<const Value*,int> num; int n=0;
  std::map<const BasicBlock*,int> rpo;
  std::map<const BasicBlock*,std::vector<int>> livein;   // sorted slots live at block start (after phis)
  std::map<std::pair<const BasicBlock*,int>,std::vector<int>> livemid;
  std::map<int,unsigned> argslot;
  std::set<int> fonly; bool fdone=false;     // integer slots used for nothing but conversion to float
  const std::set<int>&floatOnly(){ if(!fdone){ fdone=true; std::set<const Value*> bad; std::vector<const Value*> w; std::vector<const Value*> all;
      for(auto&k:num) if(k.first->getType()->isIntegerTy()){ all.push_back(k.first); for(auto*u:k.first->users()){ auto*i=dyn_cast<Instruction>(u); if(!i) continue; unsigned o=i->getOpcode(); if(o==Instruction::SIToFP||o==Instruction::UIToFP) continue; if(i->getType()->isIntegerTy()&&(isa<PHINode>(i)||i->isBinaryOp()||o==Instruction::Trunc||o==Instruction::SExt||o==Instruction::ZExt||(o==Instruction::Select&&i->getOperand(0)!=k.first))) continue; if(isa<DbgInfoIntrinsic>(i)) continue; if(bad.insert(k.first).second) w.push_back(k.first); } }
      while(!w.empty()){ auto*v=w.back(); w.pop_back(); if(auto*i=dyn_cast<Instruction>(v)) for(auto&op:i->operands()) if(op->getType()->isIntegerTy()&&num.count(op)&&!isa<CallBase>(i)&&!isa<LoadInst>(i)) if(bad.insert(op).second) w.push_back(op); }
      for(auto*v:all) if(!bad.count(v)) fonly.insert(num.at(v)); } return fonly; }
  std::set<const BasicBlock*> hd; bool hdone=false;
  const std::set<const BasicBlock*>&heads(){ if(!hdone){ hdone=true; for(auto&k:rpo) for(auto*s:successors(k.first)) if(rpo.at(s)<=k.second) hd.insert(s); } return hd; }
};

typedef std::function<bool(struct Interp&,const CallBase*,std::vector<Val>&,State,std::vector<Out>&)> Stub;

struct Interp {
  Module*M; const DataLayout*DL;
  std::map<const GlobalValue*,int> gobj;
  std::map<const Function*,std::unique_ptr<FnInfo>> fi;
  std::map<std::string,Stub> stubs;
  std::set<Event> events;            // alarms
  std::set<const Function*> reached;
  uint64_t steps=0, maxsteps=4000000000ull; size_t maxitems=6000, groupcases=4;
  uint64_t accesses=0, forks=0, joins=0;
  std::vector<const Function*> stack;
  std::vector<std::array<int,3>> watch;   // (object, offset, length): states that differ here are not joined
  bool fpmode=false;                  // track float ranges and NaN, widen loops that are not counted
  std::string ctx;                    // scenario description for alarms
  State init;

  Interp(Module*m);
  FnInfo&info(const Function*f);
  time_t started=time(nullptr); double maxtime=0;
  void alarm(const char*kind,const Instruction*I,const std::string&d);
  std::string loc(const Instruction*I);
  int newobj(State&s,const std::string&n,uint64_t size,int kind);
  Obj&wobj(State&s,int id){ auto&p=s.objs[id]; if(p.use_count()>1) p=std::make_shared<Obj>(*p); return *p; }
  const Obj&robj(const State&s,int id){ return *s.objs[id]; }
  void initGlobals();
  void storeConst(State&s,int obj,uint64_t off,const Constant*c);
  Val constant(State&s,const Constant*c);
  // memory
  bool check(State&s,const Val&p,uint64_t n,bool wr,const Instruction*I);
  Val load(State&s,const Val&p,Type*t,const Instruction*I);
  void store(State&s,const Val&p,const Val&v,Type*t,const Instruction*I);
  Val loadAt(State&s,int obj,int64_t off,Type*t);
  void storeAt(State&s,int obj,int64_t off,const Val&v,Type*t);
  Cell symCell(const std::vector<F>&b);
  std::vector<F> cellBits(State&s,int obj,uint64_t off);  // 8 forms (fresh when unknown, written back)
  // values
  Val simp(const State&s,const Val&v);
  Val freshInt(unsigned w);
  std::vector<F> tableFn(const std::vector<uint64_t>&vals,unsigned width,const std::vector<F>&idx);
  uint64_t umax(const Val&v), umin(const Val&v);
  Val binop(State&s,const Instruction*I,unsigned op,const Val&a,const Val&b);
  Val addv(const Val&a,const Val&b,F cin);
  Val icmp(State&s,CmpInst::Predicate p,Val a,Val b,const Instruction*I);
  Val select(State&s,const Val&c,const Val&a,const Val&b);
  Val rng(const State&s,const Val&v);
  Val castOp(State&s,const Instruction*I,unsigned op,const Val&a,Type*to,Type*from);
  Val joinVal(State&A,State&B,State&R,const Val&a,const Val&b,std::map<std::pair<F,F>,F>&memo,F gate,bool hasGate);
  bool joinable(const State&a,const State&b);
  State joinState(const State&a,const State&b,std::map<std::pair<F,F>,F>&memo,F&gate,bool&hasGate);
  std::string partSig(const State&s);
  std::vector<Out> call(const Function*f,std::vector<Val> args,State st);
  std::vector<Out> exec(const Function*f,std::vector<Val> args,State st,const struct Item*start,const std::set<const BasicBlock*>*body);
  uint64_t loopRuns=0; std::vector<std::array<std::string,2>> dataLoops();   // loops whose turns were not counted out: where, verdict
  bool libcall(const CallBase*CB,const std::string&n,std::vector<Val>&a,State&st,Val&ret,std::vector<Out>*multi);
  std::vector<Out> run(const std::string&fn,std::vector<Val> args,State st);
  Function*fn(const std::string&n){ Function*f=M->getFunction(n); if(!f||f->isDeclaration()) throw Broken("anchor function not found: "+n); return f; }
};
std::string fmtForm(F f);
std::unique_ptr<Module> loadModules(LLVMContext&C,const std::vector<std::string>&files);
