// Lives of shell assemblers: replays operation histories generated from spec/ShellOps.tla.
#include "shell.h"
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;
// a pressure that cannot be evaluated, or only not the first time in an assembly (armed)
static bool armed=false;
struct Throwing : public gsFunction<real_t>
{
    index_t d; bool once; Throwing(index_t d_, bool o) : d(d_), once(o) {}
    short_t domainDim() const { return d; } short_t targetDim() const { return 1; }
    void eval_into(const Mat & x, Mat & r) const { if (!once || armed) { armed=false; GISMO_ERROR("this pressure cannot be evaluated"); } r.setConstant(1,x.cols(),0.3); }
    GISMO_CLONE_FUNCTION(Throwing)
};
struct Def { std::map<std::string,long> v; Def() { const char * k[]={"geo","bas","bc","press","found","pl","pm","cont","qu","pen","wk"}; for (int i=0;i!=11;i++) v[k[i]]=0; v["cont"]=-1; }
    std::string js() const { Rec r; for (std::map<std::string,long>::const_iterator i=v.begin();i!=v.end();++i) r.i(i->first.c_str(),i->second); return r.str(); } };
struct W
{
    Problem & P; std::vector<gsMultiPatch<real_t> > geo; std::vector<gsMultiBasis<real_t> > bas; std::vector<gsBoundaryConditions<real_t> > bcs;
    std::vector<FunPtr> press, found; std::vector<gsPointLoads<real_t> > pl, pm; std::vector<std::vector<gsMultiPatch<real_t> > > def;
    std::vector<Shell*> A; std::vector<Def> D; bool single;
    W(Problem & p) : P(p) {} ~W() { for (size_t k=0;k!=A.size();k++) delete A[k]; }
    const gsFunction<real_t> & fn(const FunPtr & f) { return dynamic_cast<const gsFunction<real_t>&>(*f); }
    Shell * ctor(const gsMultiPatch<real_t> & mp, const gsMultiBasis<real_t> & b, const gsBoundaryConditions<real_t> & bc)
    {
        if (!P.forceFun) P.forceFun=P.force.fun();
        #define MK(DD,B) (single ? (Shell*)new gsThinShellAssembler<DD,real_t,B>(mp,b,bc,*P.forceFun,P.mm[0].get()) : (Shell*)new gsThinShellAssembler<DD,real_t,B>(mp,b,bc,*P.forceFun,P.cont))
        if (P.d==2) return MK(2,false); if (P.bend) return MK(3,true); return MK(3,false);
        #undef MK
    }
    Shell * clone(Shell * s, int how)  // 0 copy 1 move
    {
        #define CP(DD,B) { typedef gsThinShellAssembler<DD,real_t,B> T; T & t=dynamic_cast<T&>(*s); return how==0 ? (Shell*)new T(t) : (Shell*)new T(std::move(t)); }
        if (P.d==2) CP(2,false) if (P.bend) CP(3,true) CP(3,false)
        #undef CP
    }
    void assign(Shell * a, Shell * b, int how)
    {
        #define AS(DD,B) { typedef gsThinShellAssembler<DD,real_t,B> T; T & x=dynamic_cast<T&>(*a); T & y=dynamic_cast<T&>(*b); if (how==0) x=y; else x=std::move(y); return; }
        if (P.d==2) AS(2,false) if (P.bend) AS(3,true) AS(3,false)
        #undef AS
    }
    void set(Shell & s, const std::string & f, long k, long w)
    {
        if (f=="press") s.setPressure(fn(press[k-1]));
        else if (f=="found") s.setFoundation(fn(found[k-1]));
        else if (f=="pl") s.setPointLoads(pl[k]);
        else if (f=="pm") s.setPointMass(pm[k]);
        else if (f=="bc") s.updateBCs(bcs[k]);
        else if (f=="geo") { if (w==0) s.setGeometry(geo[k]); else if (w==1) s.setUndeformed(geo[k]); else s.geometry()=geo[k]; }
        else if (f=="bas") s.setBasis(bas[k]);
        else if (f=="wk") { gsBoxTopology::ifContainer none, all=P.mp.interfaces(); s.addWeakC0(k==1?all:none); s.addWeakC1(k==2?all:none); }
        else
        {
            const std::string key = f=="cont"?"Continuity":f=="qu"?"ExprAssembler.quB":"IfcPenalty";
            gsOptionList o=s.options(); gsOptionList & t = w==0 ? o : s.options();
            if (f=="pen") { t.setReal("IfcPenalty",k?20.:1e3); t.setReal("WeakDirichlet",k?30.:1e3); } else t.setInt(key,f=="cont"?k:k+1);
            if (w==0) s.setOptions(o);
        }
    }
    Shell * build(const Def & d)
    {
        Shell * s=ctor(geo[d.v.at("geo")],bas[d.v.at("bas")],bcs[d.v.at("bc")]);
        const char * o[]={"cont","qu","pen"}; gsOptionList t=s->options(); t.setInt("Continuity",d.v.at("cont")); t.setInt("ExprAssembler.quB",1+d.v.at("qu")); if (d.v.at("pen")) { t.setReal("IfcPenalty",20.); t.setReal("WeakDirichlet",30.); } s->setOptions(t); (void)o;
        const char * k[]={"press","found","pl","pm","wk"};
        for (int i=0;i!=5;i++) if (d.v.at(k[i])) set(*s,k[i],d.v.at(k[i]),0);
        return s;
    }
};
static const char * name(ThinShellAssemblerStatus st) { return st==ThinShellAssemblerStatus::Success?"ok":st==ThinShellAssemblerStatus::AssemblyError?"error":"dimension"; }
// assembles and probes; v, w are drawn from the seed, so equal systems give equal probes
static std::string system(Shell & A, const std::string & kind, const gsMultiPatch<real_t> & def, unsigned seed)
{
    ThinShellAssemblerStatus st; Rng g(seed); Rec r; Mat u;
    if (kind=="bothu") u=0.03*rvec(g,A.numDofs());
    if (kind=="lin") st=A.assemble(); else if (kind=="vec") st=A.assembleVector(def); else if (kind=="vecn") st=A.assembleVector(def,false); else if (kind=="mat") st=A.assembleMatrix(def);
    else if (kind=="both") st=A.assemble(def); else if (kind=="bothu") st=A.assemble(u); else st=A.assembleMass(kind=="lump");
    r.s("status",name(st)).s("told",name(A.status())).i("n",A.numDofs());
    if (st!=ThinShellAssemblerStatus::Success) return r.str();
    Rng h(seed+17);
    if (kind!="mat" && kind!="mass" && kind!="lump")
    { const Mat b=A.rhs(); Mat v1=rvec(h,b.rows()), v2=rvec(h,b.rows()); r.i("rows",b.rows()).v("vr",std::vector<double>{(v1.transpose()*b)(0,0),(v2.transpose()*b)(0,0)}).r("rsize",b.cwiseAbs().sum()); }
    Rng h2(seed+29);
    if (kind!="vec" && kind!="vecn")
    { const Sp K = (kind=="mass"||kind=="lump") ? A.massMatrix() : A.matrix(); Mat v1=rvec(h2,K.rows()), v2=rvec(h2,K.cols());
      double n=0; for (index_t k=0;k!=K.outerSize();k++) for (Sp::InnerIterator it(K,k);it;++it) n+=std::abs(it.value());
      r.i("mrows",K.rows()).v("vkw",std::vector<double>{(v1.transpose()*(K*v2))(0,0),(v2.transpose()*(K*v1))(0,0),(v1.transpose()*(K*v1))(0,0)}).r("msize",n); }
    return r.str();
}
static void ask(W & w, Shell & A, const Def & d, long k, Rng & g)
{
    const gsMultiPatch<real_t> & mp=w.geo[d.v.at("geo")]; gsMultiPatch<real_t> def=w.def[d.v.at("geo")][0]; Mat u=0.1*rvec(g,A.getMapper().freeSize()); Mat x(2,1); x<<0.3,0.6;
    switch (k)
    {
    case 0: { gsMultiPatch<real_t> s=A.constructSolution(u); (void)s; } break;
    case 1: A.getArea(def); break;
    case 2: A.fullSolutionVector(u); break;
    case 3: A.getDisplacementNorm(def); break;
    case 4: A.boundaryForce(def,patchSide(0,boundary::east)); break;
    case 5: A.computePrincipalStretches(x,def,0); break;
    case 6: { gsPiecewiseFunction<real_t> s; A.constructStress(def,s,stress_type::membrane); s.piece(0).eval(x); } break;
    case 7: { gsVector<real_t> s=A.constructSolutionVector(A.constructMultiPatch(u)); (void)s; } break;
    }
}
static void lives(const Scen & s, std::vector<std::string> & out)
{
    Rng g(I(s,"seed")); const std::string id=S(s,"id"); Scen t=s; t["loads"]="0"; t["pm"]="0"; t["bc"]="none"; t["law2"]=S(s,"law"); t["impl2"]=S(s,"impl"); t["comp2"]=S(s,"comp");
    Problem P0=problem(t,g); W w(P0);
    const index_t d=w.P.d, np=w.P.mp.nPatches(); w.single = S(s,"mats")=="one";
    w.geo.push_back(w.P.mp); { gsMultiPatch<real_t> q=w.P.mp; perturb(q,g,0.05); w.geo.push_back(q); }
    for (int k=0;k!=2;k++) { std::vector<gsMultiPatch<real_t> > v; v.push_back(deform(w.geo[k],"mid",g)); v.push_back(deform(w.geo[k],"small",g)); w.def.push_back(v); }
    w.bas.push_back(w.P.basis); { gsMultiBasis<real_t> b=w.P.basis; b.uniformRefine(); w.bas.push_back(b); }
    const char * bc[]={"fix","comp","nonhom","none","weak"};
    for (int k=0;k!=5;k++)
    {
        Problem & P=w.P; P.sides.clear(); Affine zero;
        auto D=[&](index_t p, index_t sd, index_t comp, Affine f, const char * ty){ SideCond c; c.type=ty; c.patch=p; c.side=sd; c.comp=comp; c.par=false; c.f=f; P.sides.push_back(c); };
        const index_t sd=np==1?1+g.n(4):1; const std::string b=bc[k];
        if (b=="fix") D(0,sd,-1,zero,"D");
        else if (b=="comp") { D(0,sd,g.n(d),zero,"D"); D(np-1,3+g.n(2),g.n(d),zero,"D"); D(0,3,-1,affine(g,d,d,0.4,true),"N"); }
        else if (b=="nonhom") { D(0,sd,-1,affine(g,d,d,0.05,true),"D"); D(np-1,4,-1,affine(g,d,d,0.4,false),"N"); }
        else if (b=="weak") { D(0,sd,-1,affine(g,d,d,0.05,true),"WD"); if (d==3) D(0,sd,-1,zero,"WC"); }
        P.makeBC(); w.bcs.push_back(P.bc);
    }
    for (int k=0;k!=2;k++) { w.press.push_back(affine(g,1,d,0.5,k==1).fun()); Affine f=affine(g,3,d,0.3,k==1); f.c.col(0).array()+=0.8; w.found.push_back(f.fun()); }
    w.press.push_back(FunPtr(new Throwing(d,false))); w.press.push_back(FunPtr(new Throwing(d,true)));
    w.pl.resize(3); w.pm.resize(3);
    for (int k=1;k!=3;k++) for (int q=0;q!=k;q++)
    { Vec x(2),f(d),m(1); x<<g.u(0.1,0.9),g.u(0.1,0.9); for (index_t i=0;i!=d;i++) f[i]=g.u(-1,1); m<<g.u(0.1,1); w.pl[k].addLoad(x,f,g.n(np),true); x<<g.u(0.1,0.9),g.u(0.1,0.9); w.pm[k].addLoad(x,m,g.n(np),true); }
    // the first object is built as users do, with the single-material or the container constructor
    w.A.push_back(w.ctor(w.geo[0],w.bas[0],w.bcs[0])); w.D.push_back(Def());
    out.push_back(Rec().s("t","start").s("id",id).i("d",d).i("np",np).str());
    std::istringstream ops(S(s,"ops")); std::string op;
    while (std::getline(ops,op,';'))
    {
        std::vector<std::string> a; std::istringstream is(op); std::string x; while (std::getline(is,x,',')) a.push_back(x);
        const std::string o=a[0]; if (o=="end") break;
        const size_t i=std::atoi(a[1].c_str()); Rec r; r.s("t",o).s("id",id).i("o",i);
        try
        {
            if (o=="set") { const long k=std::atol(a[3].c_str()), v=std::atol(a[4].c_str()); w.set(*w.A[i-1],a[2],k,v); w.D[i-1].v[a[2]]=k; r.s("f",a[2]).i("k",k).i("w",v); }
            else if (o=="copy" || o=="move") { w.A.push_back(w.clone(w.A[i-1],o=="move")); w.D.push_back(w.D[i-1]); }
            else if (o=="assign" || o=="moveto") { const size_t q=std::atoi(a[2].c_str()); w.assign(w.A[i-1],w.A[q-1],o=="moveto"); w.D[i-1]=w.D[q-1]; r.i("q",q); }
            else if (o=="ask") { const long k=std::atol(a[2].c_str()); ask(w,*w.A[i-1],w.D[i-1],k,g); r.i("k",k); }
            else
            {
                const long k=std::atol(a[3].c_str()); const Def & D=w.D[i-1]; const gsMultiPatch<real_t> & def=w.def[D.v.at("geo")][k]; const unsigned seed=g.n(1<<20);
                armed=true; const std::string got=system(*w.A[i-1],a[2],def,seed); armed=false;
                r.s("kind",a[2]).i("g",k).raw("def",D.js()).raw("got",got);
                memory::unique_ptr<Shell> f(w.build(D)); r.raw("fresh",system(*f,a[2],def,seed));
            }
        }
        catch (const std::exception & e) { out.push_back(Rec().s("t","end").s("id",id).s("how",o+"-throw").s("what",std::string(e.what()).substr(0,200)).str()); return; }
        out.push_back(r.str());
    }
}
int main(int c, char ** v) { return runAll(c,v,lives,200); }
