// Earley recogniser over flat CFGs; requests on stdin, one reply line each.
// usage: earley name=cfgfile ...   (cfg line: LHS SYM SYM ...; uppercase = terminal)
//   A g tok...        -> "1" | "0 <pos> <viable terminals at pos...>"   whole-text acceptance
//   S g NT tok...     -> "1" | "0 <pos>"    is tok... derivable from NT
//   V g tok...        -> "<viable terminals...>" after the prefix ("-" if prefix not viable), "$" = may end
//   E g tok...        -> elided-terminator completion:
//                        "1 <nsol> <completed tokens...>" | "0 <pos> <viable...>"
//                        terminators inserted carry a leading '+'
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
using namespace std;
struct G {
  map<string,int> id; vector<string> name; vector<char> term;
  struct R { int lhs; vector<int> rhs; };
  vector<R> rules; vector<vector<int>> byl; vector<char> nullable;
  // dotted positions
  vector<int> base; vector<int> nextsym; vector<int> lhsOf; int npos = 0;
  vector<int> elid;
  int sym(const string&s){ auto it=id.find(s); if(it!=id.end())return it->second; int n=name.size(); id[s]=n; name.push_back(s); term.push_back((isupper(s[0]) && s!="TOP") || s[0]=='+' || s[0]=='@'); return n; }
  void load(const char*f){ ifstream in(f); string l; while(getline(in,l)){ istringstream is(l); string a; is>>a; R r; r.lhs=sym(a); while(is>>a) r.rhs.push_back(sym(a)); rules.push_back(r);} fin(); }
  void fin(){ int n=name.size(); byl.assign(n,{}); nullable.assign(n,0);
    for(size_t i=0;i<rules.size();i++) byl[rules[i].lhs].push_back(i);
    bool ch=true; while(ch){ ch=false; for(auto&r:rules){ if(nullable[r.lhs])continue; bool a=true; for(int s:r.rhs) if(!nullable[s])a=false; if(a){nullable[r.lhs]=1;ch=true;} } }
    for(auto&r:rules){ base.push_back(npos); for(size_t k=0;k<=r.rhs.size();k++){ nextsym.push_back(k<r.rhs.size()?r.rhs[k]:-1); lhsOf.push_back(r.lhs); npos++; } }
    for(int i=0;i<n;i++) if(name[i][0]=='+') elid.push_back(i); }
};
struct Set { vector<pair<int,int>> items; unordered_set<uint64_t> seen; vector<vector<int>*> dummy; map<int,vector<int>> want; vector<char> via; };
struct P {
  G&g; vector<Set> ch; int startsym;
  P(G&g,int s):g(g),startsym(s){ ch.emplace_back(); Set&S=ch[0]; for(int r:g.byl[s]) add(0,g.base[r],0); closure(0);} 
  void add(int k,int pos,int org){ uint64_t key=((uint64_t)pos<<32)|(uint32_t)org; Set&S=ch[k]; if(S.seen.insert(key).second) S.items.push_back({pos,org}); }
  void closure(int k){
    for(size_t i=0;i<ch[k].items.size();i++){
      int pos=ch[k].items[i].first, org=ch[k].items[i].second; int s=g.nextsym[pos];
      if(s<0){ int l=g.lhsOf[pos]; // complete
        if(org!=k || true){ auto it=ch[org].want.find(l); if(it!=ch[org].want.end()){ vector<int> w=it->second; for(int idx:w){ auto p=ch[org].items[idx]; add(k,p.first+1,p.second);} } }
      } else if(!g.term[s]){
        ch[k].want[s].push_back(i);
        for(int r:g.byl[s]) add(k,g.base[r],k);
        if(g.nullable[s]) add(k,pos+1,org);
      } else ch[k].want[s].push_back(i);
    }
    Set&S=ch[k]; S.via.assign(g.name.size(),0); for(auto&w:S.want) if(g.term[w.first]) S.via[w.first]=1;
  }
  bool viable(int t){ return t>=0 && ch.back().via[t]; }
  void scan(int t){ int k=ch.size(); ch.emplace_back(); auto&w=ch[k-1].want[t]; for(int idx:w){ auto p=ch[k-1].items[idx]; add(k,p.first+1,p.second);} closure(k);} 
  void pop(){ ch.pop_back(); }
  bool accept(){ for(auto&p:ch.back().items) if(p.second==0 && g.nextsym[p.first]<0 && g.lhsOf[p.first]==startsym) return true; return false; }
  string via(){ string o; for(size_t i=0;i<g.name.size();i++) if(ch.back().via[i] && g.name[i][0]!='+') o+=" "+g.name[i]; if(accept()) o+=" $"; return o; }
};
static map<string,G*> gs;
static long steps;
// do the next la tokens (a unit of the lexer) follow without any insertion?
static bool follows(P&p,const vector<int>&toks,size_t i,int la){
  if(i==toks.size()) return p.accept();
  int n=0; bool ok=true;
  for(int k=0;k<la && ok;k++){ if(p.viable(toks[i+k])){ p.scan(toks[i+k]); n++; } else ok=false; }
  while(n--) p.pop();
  return ok;
}
static void dfs(P&p,const vector<int>&toks,size_t i,int la,vector<int>&path,vector<vector<int>>&sols,int maxd){
  if(++steps>4000) return;
  if(follows(p,toks,i,la)){ sols.push_back(path); return; }
  if((int)path.size()>=maxd || sols.size()>=8) return;
  for(int e:p.g.elid) if(p.viable(e)){ p.scan(e); path.push_back(e); dfs(p,toks,i,la,path,sols,maxd); path.pop_back(); p.pop(); }
}
int main(int argc,char**argv){
  for(int i=1;i<argc;i++){ string a=argv[i]; size_t e=a.find('='); G*g=new G; g->load(a.substr(e+1).c_str()); gs[a.substr(0,e)]=g; }
  string line; 
  while(getline(cin,line)){
    istringstream is(line); string cmd,gn; is>>cmd>>gn; G&g=*gs[gn];
    int start=g.id["TOP"];
    if(cmd=="S"){ string nt; is>>nt; auto it=g.id.find(nt); if(it==g.id.end()){ puts("? no such nonterminal"); fflush(stdout); continue;} start=it->second; }
    vector<int> toks,la; vector<string> raw; string a; bool bar=false; while(is>>a){ if(a=="|"){bar=true;continue;} if(bar){ la.push_back(atoi(a.c_str())); continue;} raw.push_back(a); auto it=g.id.find(a); toks.push_back(it==g.id.end()?-1:it->second);}
    la.resize(toks.size()+1,1);
    P p(g,start); string out;
    if(cmd=="A"||cmd=="S"||cmd=="V"){
      size_t i=0; for(;i<toks.size();i++){ if(!p.viable(toks[i])) break; p.scan(toks[i]); }
      if(cmd=="V") out = i<toks.size()? "-" : p.via();
      else if(i==toks.size() && p.accept()) out="1"; else { out="0 "+to_string(i); if(cmd=="A") out+=p.via(); }
    } else if(cmd=="E"){
      vector<string> full; size_t i=0; int nsol=1; bool ok=true; 
      for(;i<=toks.size();i++){ bool eot=i==toks.size(); int t=eot?-1:toks[i];
        vector<vector<int>> sols; vector<int> path;
        for(int md=0;md<=24 && sols.empty();md+= (md<4?1:4)) { steps=0; dfs(p,toks,i,la[i],path,sols,md);}
        if(sols.empty()){ ok=false; break; }
        if(sols.size()>1) nsol=max<int>(nsol,sols.size());
        for(int e:sols[0]){ p.scan(e); full.push_back(g.name[e]); }
        if(!eot){ p.scan(t); full.push_back(raw[i]); }
      }
      if(ok){ out="1 "+to_string(nsol); for(auto&s:full) out+=" "+s; }
      else { out="0 "+to_string(i)+p.via(); }
    }
    puts(out.c_str()); fflush(stdout);
  }
}
