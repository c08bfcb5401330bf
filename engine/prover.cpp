// Bounded entailment over linear inequality facts: is  c + sum k_i*x_i <= 0  a non-negative combination
// of recorded facts and interval bounds?  Exact 128-bit arithmetic; a deterministic, budgeted search.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <algorithm>
typedef __int128 i128; typedef unsigned __int128 u128; typedef int64_t i64; typedef uint64_t u64;
static const i128 BIG = ((i128)1) << 120;
struct Fact { int n; int x[8]; i128 k[8]; i128 ub; };
struct Ctx {
    std::vector<i128> lo, hi;
    std::vector<Fact> facts;
    int disabled = -1;  // fact not to be used
    std::vector<char> off;
    std::vector<std::vector<std::pair<int,int>>> pos, neg; // atom -> (fact index, slot) by sign
};
struct Form { i128 c; int n; int x[10]; i128 k[10]; };
struct Key { u64 h; bool operator==(const Key&o) const { return h==o.h; } };
static inline i128 mk(u64 lo, u64 hi) { return (i128)(((u128)hi << 64) | lo); }
static i128 iabs(i128 v) { return v < 0 ? -v : v; }
static bool mulok(i128 a, i128 b) {
    if (a == 0 || b == 0) return true;
    return iabs(a) <= BIG / iabs(b);
}
struct Search {
    Ctx& g; int steps; std::unordered_map<u64,int> seen;
    Search(Ctx& g, int s) : g(g), steps(s) {}
    u64 hash(const Form& f) {
        u64 h = 1469598103934665603ull;
        auto mix=[&](u64 v){ h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>29; };
        mix((u64)f.c); mix((u64)(f.c>>64));
        for (int i=0;i<f.n;i++){ mix(f.x[i]); mix((u64)f.k[i]); mix((u64)(f.k[i]>>64)); }
        return h;
    }
    // f*m - r*fact ; returns false on overflow/size
    bool combine(const Form& f, i128 m, const Fact& t, i128 r, Form& o) {
        if (!mulok(f.c,m) || !mulok(r,t.ub)) return false;
        o.c = f.c*m + r*t.ub; o.n = 0;
        int i=0,j=0;
        while (i<f.n || j<t.n) {
            int xi = i<f.n? f.x[i] : 0x7fffffff, xj = j<t.n? t.x[j] : 0x7fffffff;
            i128 v; int x;
            if (xi<xj){ if(!mulok(f.k[i],m)) return false; v=f.k[i]*m; x=xi; i++; }
            else if (xj<xi){ if(!mulok(t.k[j],r)) return false; v=-r*t.k[j]; x=xj; j++; }
            else { if(!mulok(f.k[i],m)||!mulok(t.k[j],r)) return false; v=f.k[i]*m - r*t.k[j]; x=xi; i++; j++; }
            if (v!=0) { if (o.n>=9) return false; o.x[o.n]=x; o.k[o.n]=v; o.n++; }
        }
        return true;
    }
    bool go(const Form& f, int depth) {
        i128 ub = f.c; i128 wt[10]; int ord[10];
        for (int i=0;i<f.n;i++) {
            i128 a=g.lo[f.x[i]], b=g.hi[f.x[i]];
            i128 e = f.k[i]>0? b : a;
            if (!mulok(e,f.k[i]) || !mulok(b-a,f.k[i])) return false;
            ub += f.k[i]*e; wt[i] = (b-a)*iabs(f.k[i]); ord[i]=i;
        }
        if (ub <= 0) return true;
        if (f.n==0 || depth==0 || steps<=0) return false;
        steps--;
        u64 h = hash(f);
        auto it = seen.find(h);
        if (it!=seen.end() && it->second>=depth) return false;
        seen[h]=depth;
        std::sort(ord, ord+f.n, [&](int a,int b){ return wt[a]>wt[b]; });
        for (int q=0;q<f.n && q<4;q++) {
            int i=ord[q]; if (wt[i]==0) break;
            int x=f.x[i]; i128 k=f.k[i];
            auto& L = k>0? g.pos[x] : g.neg[x];
            for (auto& pr : L) {
                if (!g.off.empty() && g.off[pr.first]) continue;
                const Fact& t=g.facts[pr.first]; i128 tk=t.k[pr.second];
                i128 m=1,r;
                if (k % tk == 0) r = k/tk;
                else if (tk % k == 0) { m = tk/k; r = 1; }
                else continue;
                Form o;
                if (!combine(f,m,t,r,o)) continue;
                if (o.n > f.n+1 || o.n>7) continue;
                if (go(o,depth-1)) return true;
            }
            // if removing everything but x's slack cannot suffice, x must be cancelled: do not look further
            if (wt[i] >= ub) {
                i128 rest=0; for(int j=0;j<f.n;j++) if(j!=i) rest+=wt[j];
                if (rest < ub) break;
            }
        }
        return false;
    }
};
// exact rational simplex over the multipliers: minimise  lambda*u + p*hi - n*lo  subject to
// lambda*G + p - n = f,  all >= 0.  Any feasible point whose cost is <= -c certifies the query.
static bool lp(Ctx& g, const Form& f, int cap) {
    int N=(int)g.lo.size(), M=(int)g.facts.size();
    std::vector<int> row(N,-1), atoms, fcol; std::vector<char> fin(M,0);
    for (int i=0;i<f.n;i++) { row[f.x[i]]=(int)atoms.size(); atoms.push_back(f.x[i]); }
    for (size_t a=0;a<atoms.size();a++) {
        int x=atoms[a];
        for (int sgn=0;sgn<2;sgn++) for (auto& pr : (sgn? g.pos[x]:g.neg[x])) {
            if (fin[pr.first] || (!g.off.empty() && g.off[pr.first])) continue;
            const Fact& t=g.facts[pr.first]; bool small=true;
            for (int j=0;j<t.n;j++) if (iabs(t.k[j])>((i128)1<<40)) small=false;
            if (!small) continue;
            fin[pr.first]=1; fcol.push_back(pr.first);
            for (int j=0;j<t.n;j++) if (row[t.x[j]]<0) { row[t.x[j]]=(int)atoms.size(); atoms.push_back(t.x[j]); }
        }
        if (atoms.size()>120) return false;
    }
    int R=(int)atoms.size(), F=(int)fcol.size(), C=F+2*R;   // last column: rhs
    int W=C+1;
    std::vector<i64> T((size_t)R*W,0); std::vector<i128> z(W,0); std::vector<int> basis(R);
    std::vector<i128> cost(C);
    for (int j=0;j<F;j++) { const Fact& t=g.facts[fcol[j]]; cost[j]=t.ub; for (int q=0;q<t.n;q++) T[(size_t)row[t.x[q]]*W+j]=(i64)t.k[q]; }
    for (int i=0;i<R;i++) {
        cost[F+i]=g.hi[atoms[i]]; cost[F+R+i]=-g.lo[atoms[i]];
        T[(size_t)i*W+F+i]=1; T[(size_t)i*W+F+R+i]=-1;
    }
    for (int i=0;i<f.n;i++) { if (iabs(f.k[i])>((i128)1<<40)) return false; T[(size_t)row[f.x[i]]*W+C]=(i64)f.k[i]; }
    i64 D=1;
    for (int i=0;i<R;i++) {
        i64 r=T[(size_t)i*W+C];
        bool neg=r<0;
        basis[i]= neg? F+R+i : F+i;
        if (neg) for (int j=0;j<W;j++) T[(size_t)i*W+j]=-T[(size_t)i*W+j];
    }
    for (int j=0;j<C;j++) z[j]=cost[j];
    z[C]=0;
    for (int i=0;i<R;i++) { i128 cb=cost[basis[i]]; if (cb) for (int j=0;j<W;j++) { i64 t=T[(size_t)i*W+j]; if (t) z[j]-=cb*t; } }
    // objective value = -z[C]/D ;  proven when  -z[C] + c*D <= 0
    for (int it=0; it<cap; it++) {
        if (-z[C] + f.c*(i128)D <= 0) return true;
        int e=-1;
        if (it < cap/2) { i128 best=0; for (int j=0;j<C;j++) if (z[j]<best) { best=z[j]; e=j; } }
        else for (int j=0;j<C;j++) if (z[j]<0) { e=j; break; }
        if (e<0) return false;
        int r=-1;
        for (int i=0;i<R;i++) { i64 a=T[(size_t)i*W+e]; if (a<=0) continue;
            if (r<0) { r=i; continue; }
            i128 l=(i128)T[(size_t)i*W+C]*T[(size_t)r*W+e], q=(i128)T[(size_t)r*W+C]*a;
            if (l<q || (l==q && basis[i]<basis[r])) r=i; }
        if (r<0) return true; // unbounded below: the facts are contradictory
        i64 pv=T[(size_t)r*W+e];
        i64* tr=&T[(size_t)r*W];
        for (int i=0;i<R;i++) if (i!=r) {
            i64* ti=&T[(size_t)i*W]; i64 k=ti[e];
            if (k==0 && pv==D) continue;
            for (int j=0;j<W;j++) {
                if (ti[j]==0 && (k==0 || tr[j]==0)) continue;
                i128 v=((i128)ti[j]*pv-(i128)k*tr[j])/D;
                if (v>((i128)1<<60) || v<-((i128)1<<60)) return false;
                ti[j]=(i64)v;
            }
        }
        { i128 k=z[e];
          if (pv>((i64)1<<30) || iabs(k)>BIG>>2) return false;
          for (int j=0;j<W;j++) { if (!mulok(z[j],pv)||!mulok(k,tr[j])) return false; z[j]=(z[j]*pv-k*tr[j])/D; } }
        D=pv; basis[r]=e;
    }
    return false;
}
extern "C" {
Ctx* ctx_new() { return new Ctx(); }
void ctx_del(Ctx* c) { delete c; }
// bounds: 4 u64 per atom: lo.lo lo.hi hi.lo hi.hi
void ctx_atoms(Ctx* c, int n, const u64* b) {
    for (int i=0;i<n;i++) {
        c->lo.push_back(mk(b[4*i],b[4*i+1])); c->hi.push_back(mk(b[4*i+2],b[4*i+3]));
        c->pos.emplace_back(); c->neg.emplace_back();
    }
}
// facts: len, then (atom, klo, khi)*len, ublo, ubhi
void ctx_facts(Ctx* c, int n, const u64* d) {
    for (int i=0;i<n;i++) {
        Fact f; int len=(int)*d++; f.n=len;
        struct P{int x; i128 k;}; P ps[16];
        for (int j=0;j<len;j++){ if(j<16){ps[j].x=(int)d[0]; ps[j].k=mk(d[1],d[2]);} d+=3; }
        f.ub=mk(d[0],d[1]); d+=2;
        if (len>7) continue;
        std::sort(ps,ps+len,[](const P&a,const P&b){return a.x<b.x;});
        int id=(int)c->facts.size();
        for (int j=0;j<len;j++){ f.x[j]=ps[j].x; f.k[j]=ps[j].k; }
        c->facts.push_back(f);
        for (int j=0;j<len;j++){
            auto& L = f.k[j]>0? c->pos[f.x[j]] : c->neg[f.x[j]];
            size_t p=L.size(); while(p>0 && c->facts[L[p-1].first].n>len) p--;
            L.insert(L.begin()+p,{id,j});
        }
    }
}
// mark facts (among the first n) that the others entail; longest first.  out[i]=1: redundant
void ctx_reduce(Ctx* c, int n, int steps, unsigned char* out) {
    std::vector<int> o(n); for (int i=0;i<n;i++){ o[i]=i; out[i]=0; }
    std::stable_sort(o.begin(),o.end(),[&](int a,int b){ return c->facts[a].n>c->facts[b].n; });
    c->off.assign(c->facts.size(),0);
    for (int i : o) {
        const Fact& t=c->facts[i]; Form f; f.n=t.n; f.c=-t.ub;
        for (int j=0;j<t.n;j++){ f.x[j]=t.x[j]; f.k[j]=t.k[j]; }
        c->off[i]=1;
        Search s(*c,steps);
        if (s.go(f,2) || lp(*c,f,steps)) out[i]=1; else c->off[i]=0;
    }
    c->off.clear();
}
int ctx_prove(Ctx* c, const u64* d, int depth, int steps) {
    Form f; int len=(int)*d++; f.c=mk(d[0],d[1]); d+=2; f.n=len;
    if (len>9) return 0;
    struct P{int x; i128 k;}; P ps[10];
    for (int j=0;j<len;j++){ ps[j].x=(int)d[0]; ps[j].k=mk(d[1],d[2]); d+=3; }
    std::sort(ps,ps+len,[](const P&a,const P&b){return a.x<b.x;});
    for (int j=0;j<len;j++){ f.x[j]=ps[j].x; f.k[j]=ps[j].k; }
    { Search s(*c,20); if (s.go(f,2)) return 1; }
    return lp(*c,f,steps);
}
}
