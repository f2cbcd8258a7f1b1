// Shell problems: definition, builder and the records the specification reads.
#pragma once
#include "matdef.h"
namespace kl {
typedef gsThinShellAssemblerBase<real_t> Shell;
typedef gsMaterialMatrixBase<real_t> MM;
inline std::string fmt(double v) { std::ostringstream s; s.precision(17); s << "(" << v << ")"; return s.str(); }
// vector field, affine in its arguments:  f_i = c(i,0) + c(i,1) x + c(i,2) y + c(i,3) z
struct Affine
{
    Mat c; index_t dom;      // dom: number of arguments (2: parametric or planar, 3: spatial)
    Affine() : dom(0) {}
    bool constant() const { return c.rightCols(3).norm()==0; }
    FunPtr fun() const
    {
        if (constant()) { Vec v=c.col(0); return FunPtr(new gsConstantFunction<real_t>(v,dom)); }
        std::vector<std::string> e;
        for (index_t i=0;i!=c.rows();i++) { std::string s = fmt(c(i,0))+"+"+fmt(c(i,1))+"*x+"+fmt(c(i,2))+"*y"; if (dom==3) s += "+"+fmt(c(i,3))+"*z"; e.push_back(s); }
        return FunPtr(new gsFunctionExpr<real_t>(e,dom));
    }
    std::string js() const { std::ostringstream o; o<<'['; for (index_t i=0;i!=c.rows();i++) { if(i) o<<','; o<<'['; for (int j=0;j!=4;j++) { if(j) o<<','; putReal(o,c(i,j)); } o<<']'; } o<<']'; return o.str(); }
};
inline Affine affine(Rng & g, index_t n, index_t dom, double size, bool var)
{
    Affine a; a.dom=dom; a.c=Mat::Zero(n,4);
    for (index_t i=0;i!=n;i++) { a.c(i,0)=size*g.u(-1,1); if (var) for (index_t j=0;j!=dom;j++) a.c(i,1+j)=size*g.u(-1,1); }
    return a;
}
struct SideCond { std::string type; index_t patch, side, comp; Affine f; bool par; };   // side 1..4
struct PLoad { index_t patch; Vec at, u, f; bool par; };
struct Pt { char k; index_t patch, side, load, el; double w; Vec u; };

struct Problem
{
    index_t d; bool bend; gsMultiPatch<real_t> mp; gsMultiBasis<real_t> basis;
    std::vector<MatDef> md; std::vector<MM::uPtr> mm; bool many; gsMaterialMatrixContainer<real_t> cont;
    Affine force; bool forcePar; FunPtr forceFun;
    bool pressOn, foundOn; Affine press, found; FunPtr pressFun, foundFun;
    std::vector<SideCond> sides; std::vector<PLoad> pl, pm;   // pm: point masses, value in f[0]
   
    std::vector<FunPtr> keep; gsBoundaryConditions<real_t> bc;
    std::vector<Pt> pts;
    Problem() : many(false), forcePar(false), pressOn(false), foundOn(false) {}

    const gsFunction<real_t> & fn(const FunPtr & f) const { return dynamic_cast<const gsFunction<real_t>&>(*f); }
    static condition_type::type code(const std::string & t)
    {
        return t=="D"?condition_type::dirichlet : t=="N"?condition_type::neumann : t=="C"?condition_type::clamped :
               t=="WD"?condition_type::weak_dirichlet : t=="WC"?condition_type::weak_clamped : condition_type::collapsed;
    }
    void makeBC()
    {
        bc = gsBoundaryConditions<real_t>();
        for (size_t k=0;k!=sides.size();k++)
        {
            const SideCond & s=sides[k]; FunPtr f;
            if (s.f.dom) { f=s.f.fun(); keep.push_back(f); }
            bc.addCondition(s.patch, boxSide(s.side), code(s.type), f ? f.get() : (gsFunctionSet<real_t>*)nullptr, 0, s.par, s.comp);
        }
        bc.setGeoMap(mp);
    }
    gsPointLoads<real_t> loads() const
    { gsPointLoads<real_t> r; for (size_t k=0;k!=pl.size();k++) r.addLoad(pl[k].at,pl[k].f,pl[k].patch,pl[k].par); return r; }
    Shell * make(bool single)
    {
        if (!forceFun) forceFun = force.fun();
        Shell * s;
        #define MK(D,B) (single ? (Shell*)new gsThinShellAssembler<D,real_t,B>(mp,basis,bc,*forceFun,mm[0].get()) \
                                : (Shell*)new gsThinShellAssembler<D,real_t,B>(mp,basis,bc,*forceFun,cont))
        if (d==2) s = MK(2,false); else if (bend) s = MK(3,true); else s = MK(3,false);
        #undef MK
        return s;
    }
    void apply(Shell & s)
    {
        if (pressOn) { pressFun=press.fun(); keep.push_back(pressFun); s.setPressure(fn(pressFun)); }
        if (foundOn) { foundFun=found.fun(); keep.push_back(foundFun); s.setFoundation(fn(foundFun)); }
        if (!pl.empty()) s.setPointLoads(loads());
        if (!pm.empty()) { gsPointLoads<real_t> r; for (size_t k=0;k!=pm.size();k++) r.addLoad(pm[k].at,pm[k].f,pm[k].patch,pm[k].par); s.setPointMass(r); }
    }
    // ---------------------------------------------------------------- quadrature
    // Gauss points of every element, of every side, and the places of the point loads
    static void gauss(index_t n, std::vector<double> & x, std::vector<double> & w)
    {
        gsGaussRule<real_t> r(n); Mat nodes; Vec wt; Vec a(1),b(1); a<<0; b<<1; r.mapTo(a,b,nodes,wt);
        x.clear(); w.clear(); for (index_t k=0;k!=n;k++) { x.push_back(nodes(0,k)); w.push_back(wt[k]); }
    }
    static std::vector<double> breaks(const gsBasis<real_t> & b, index_t dir)
    {
        std::vector<double> r; const gsBasis<real_t> & c=b.component(dir);
        const gsBSplineBasis<real_t> * s=dynamic_cast<const gsBSplineBasis<real_t>*>(&c);
        if (!s) { const gsNurbsBasis<real_t> * nb=dynamic_cast<const gsNurbsBasis<real_t>*>(&c); s = &nb->source(); }
        const gsKnotVector<real_t> & kv=s->knots();
        for (gsKnotVector<real_t>::uiterator it=kv.ubegin(); it!=kv.uend(); ++it) r.push_back(*it);
        return r;
    }
    void quadrature(double quA=1, index_t quB=1)
    {
        pts.clear(); std::vector<double> gx0,gw0,gx1,gw1;
        index_t el=0;
        for (size_t p=0;p!=mp.nPatches();p++)
        {
            const gsBasis<real_t> & b=basis.basis(p);
            gauss((index_t)(quA*b.degree(0)+quB+0.5),gx0,gw0); gauss((index_t)(quA*b.degree(1)+quB+0.5),gx1,gw1);
            std::vector<double> B0=breaks(b,0), B1=breaks(b,1);
            for (size_t j=0;j+1<B1.size();j++) for (size_t i=0;i+1<B0.size();i++, el++)
                for (size_t b1=0;b1!=gx1.size();b1++) for (size_t a=0;a!=gx0.size();a++)
                { Pt q; q.k='d'; q.patch=p; q.side=0; q.load=0; q.el=el; q.u.resize(2); const double h0=B0[i+1]-B0[i], h1=B1[j+1]-B1[j];
                  q.u<<B0[i]+h0*gx0[a], B1[j]+h1*gx1[b1]; q.w=gw0[a]*gw1[b1]*h0*h1; pts.push_back(q); }
            for (index_t s=1;s!=5;s++)
            {
                const bool vert = s<3; const std::vector<double> & Bt = vert?B1:B0; const std::vector<double> & gx=vert?gx1:gx0, & gw=vert?gw1:gw0;
                const double fix = (s==1||s==3) ? (vert?B0:B1).front() : (vert?B0:B1).back();
                for (size_t i=0;i+1<Bt.size();i++) for (size_t a=0;a!=gx.size();a++)
                { Pt q; q.k='e'; q.patch=p; q.side=s; q.load=0; q.el=i; q.u.resize(2); const double h=Bt[i+1]-Bt[i], t=Bt[i]+h*gx[a];
                  if (vert) q.u<<fix,t; else q.u<<t,fix; q.w=gw[a]*h; pts.push_back(q); }
            }
        }
        for (size_t k=0;k!=pl.size();k++) { Pt q; q.k='p'; q.patch=pl[k].patch; q.side=0; q.load=k+1; q.el=0; q.w=1; q.u=pl[k].u; pts.push_back(q); }
        for (size_t k=0;k!=pm.size();k++) { Pt q; q.k='m'; q.patch=pm[k].patch; q.side=0; q.load=k+1; q.el=0; q.w=pm[k].f[0]; q.u=pm[k].u; pts.push_back(q); }
    }
    // ------------------------------------------------------------------ records
    std::string ptsJs() const
    {
        std::ostringstream o; o<<'[';
        for (size_t k=0;k!=pts.size();k++) { if(k) o<<','; Rec r; r.s("k",std::string(1,pts[k].k)).i("patch",pts[k].patch+1).i("side",pts[k].side).i("load",pts[k].load).i("el",pts[k].el).r("w",pts[k].w).v("u",Mat(pts[k].u)); o<<r.str(); }
        o<<']'; return o.str();
    }
    std::string at(const gsMultiPatch<real_t> & f) const
    {
        std::ostringstream o; o<<'[';
        for (size_t k=0;k!=pts.size();k++)
        {
            if (k) o<<','; const gsGeometry<real_t> & g=f.patch(pts[k].patch); Mat u=pts[k].u, x=g.eval(u), X=Mat::Zero(3,1); X.topRows(g.geoDim())=x;
            o<<"{\"x\":"; { Rec r; std::ostringstream v; v<<'['; for(int i=0;i!=3;i++){ if(i) v<<','; putReal(v,X(i,0)); } v<<']'; o<<v.str(); }
            o<<",\"s\":"<<surf(g,u,0)<<'}';
        }
        o<<']'; return o.str();
    }
    std::string matsJs() const
    { std::ostringstream o; o<<'['; for (size_t p=0;p!=mp.nPatches();p++) { if(p) o<<','; Rec r; md[many?p:0].put(r); o<<r.str(); } o<<']'; return o.str(); }
    std::string sidesJs() const
    { std::ostringstream o; o<<'['; for (size_t k=0;k!=sides.size();k++) { if(k) o<<','; const SideCond & s=sides[k]; Rec r; r.s("type",s.type).i("patch",s.patch+1).i("side",s.side).i("comp",s.comp).b("par",s.par);
        Affine f=s.f; if (!f.dom) { f.c=Mat::Zero(s.comp<0?d:1,4); } r.raw("c",f.js()); o<<r.str(); } o<<']'; return o.str(); }
    std::string loadsJs() const
    { std::ostringstream o; o<<'['; for (size_t k=0;k!=pl.size();k++) { if(k) o<<','; Mat f=Mat::Zero(3,1); f.topRows(d)=pl[k].f; o<<Rec().v("f",f).str(); } o<<']'; return o.str(); }
    void put(Rec & r) const
    {
        r.i("d",d).b("bend",bend).i("ng",0).raw("mats",matsJs()).raw("force",Rec().b("par",forcePar).raw("c",force.js()).str());
        r.raw("press",Rec().b("on",pressOn).raw("c",pressOn?press.js():"[]").str()).raw("found",Rec().b("on",foundOn).raw("c",foundOn?found.js():"[]").str());
        bool inv=false; for (size_t k=0;k!=pl.size();k++) inv = inv || !pl[k].par; for (size_t k=0;k!=pm.size();k++) inv = inv || !pm[k].par;
        r.b("inv",inv);      // some place is given in physical coordinates
        r.raw("sides",sidesJs()).raw("pl",loadsJs());
    }
};
// field (multi-patch function) whose coefficients are the free entries of v, fixed ones zero
inline gsMultiPatch<real_t> field(const Problem & P, const gsDofMapper & m, const Mat & v)
{
    gsMultiPatch<real_t> f;
    for (size_t p=0;p!=P.mp.nPatches();p++)
    {
        Mat c=Mat::Zero(P.basis.basis(p).size(),P.d);
        for (index_t k=0;k!=c.rows();k++) for (index_t j=0;j!=P.d;j++) if (m.is_free(k,p,j)) c(k,j)=v(m.index(k,p,j),0);
        f.addPatch(P.basis.basis(p).makeGeometry(give(c)));
    }
    return f;
}
inline gsMultiPatch<real_t> plus(const gsMultiPatch<real_t> & a, const gsMultiPatch<real_t> & b, double s)
{ gsMultiPatch<real_t> r=a; for (size_t p=0;p!=r.nPatches();p++) r.patch(p).coefs() += s*b.patch(p).coefs(); return r; }
inline Mat rvec(Rng & g, index_t n) { Mat v(n,1); for (index_t k=0;k!=n;k++) v(k,0)=g.u(-1,1); return v; }

// builds the problem a scenario describes
inline Problem problem(const Scen & s, Rng & g)
{
    Problem P; P.d=I(s,"d"); P.bend=P.d==3 && I(s,"bend"); const index_t np=I(s,"np"), deg=I(s,"deg"), ref=I(s,"ref");
    P.mp=geometry(S(s,"shape"),P.d,np,deg,ref); P.basis=gsMultiBasis<real_t>(P.mp);
    P.many = S(s,"mats")!="one";
    for (index_t p=0;p!=(P.many?np:1);p++)
    {
        Scen t=s;
        if (p>0 && S(s,"mats")=="mix") { t["law"]=S(s,"law2"); t["impl"]=S(s,"impl2"); t["comp"]=S(s,"comp2"); }
        P.md.push_back(matdef(t,g)); P.md.back().thick.c = g.u(0.08,0.4);
    }
    // the materials must not move once the library points at their functions
    for (size_t p=0;p!=P.md.size();p++) { P.mm.push_back(P.md[p].make(P.mp)); P.cont.add(P.mm.back().get()); }
    if (!P.many) for (index_t p=1;p<np;p++) P.cont.add(P.mm[0].get());
    const std::string body=S(s,"body");      // zero | cphys | aphys | cpar | apar
    const bool par = P.d==2 || body=="cpar" || body=="apar";
    P.forcePar=par; P.force=affine(g,P.d,par?2:3,body=="zero"?0:0.5,body=="aphys"||body=="apar");
    const long L=I(s,"loads");               // 1 neumann, 2 pressure, 4 foundation, 8 point (parametric), 16 point (physical)
    const bool va=S(s,"par")=="var";
    if (L&1) { const int n=1+g.n(2); for (int k=0;k<n;k++) { SideCond c; c.type="N"; c.patch=g.n(np); c.side=1+g.n(4); bool dup=false; for (size_t q=0;q!=P.sides.size();q++) dup = dup || (P.sides[q].patch==c.patch && P.sides[q].side==c.side); if (dup) continue; // the core keeps one function per side
            c.comp=-1; c.par=false; c.f=affine(g,P.d,P.d,0.4,va && g.n(2)); P.sides.push_back(c); } }
    if (L&2) { P.pressOn=true; P.press=affine(g,1,P.d,0.5,va); }
    if (L&4) { P.foundOn=true; P.found=affine(g,3,P.d==3?3:2,0.3,va); P.found.c.col(0).array() += 0.8; }
    for (int k=0;k!=2;k++) if (L & (8<<k)) { const int n=1+g.n(2); for (int q=0;q<n;q++) { PLoad l; l.patch=g.n(np); l.par=k==0; l.u.resize(2); l.u<<g.u(0.05,0.95),g.u(0.05,0.95);
        if (l.par && g.n(3)==0) l.u<<0.5*g.n(3),0.5*g.n(3);   // corners of patches and of elements
        l.f.resize(P.d); for (index_t i=0;i!=P.d;i++) l.f[i]=g.n(4)==0?0:g.u(-1,1); if (l.par) l.at=l.u; else l.at=P.mp.patch(l.patch).eval(l.u); P.pl.push_back(l); } }
    const long M=has(s,"pm") ? I(s,"pm") : 0;
    for (int k=0;k!=2;k++) if (M & (1<<k)) { PLoad l; l.patch=g.n(np); l.par=k==0; l.u.resize(2); l.u<<g.u(0.05,0.95),g.u(0.05,0.95); l.f.resize(1); l.f[0]=g.u(0.1,2); if (l.par) l.at=l.u; else l.at=P.mp.patch(l.patch).eval(l.u); P.pm.push_back(l); }
    const std::string b=S(s,"bc");           // none | fix | comp | nonhom | clamp
    auto D=[&](index_t p, index_t sd, index_t comp, Affine f, const char * t){ SideCond c; c.type=t; c.patch=p; c.side=sd; c.comp=comp; c.par=false; c.f=f; P.sides.push_back(c); };
    const index_t sp=g.n(np), sd = np==1 ? 1+g.n(4) : (sp==0 ? 1 : 2);
    Affine zero;
    if (b=="fix") { D(sp,sd,-1,zero,"D"); }
    else if (b=="comp") { D(sp,sd,g.n(P.d),zero,"D"); D(sp,3+g.n(2),g.n(P.d),zero,"D"); }
    else if (b=="nonhom") { D(sp,sd,-1,affine(g,P.d,P.d,0.05,va),"D"); D(g.n(np),3+g.n(2),g.n(P.d),zero,"D"); }
    else if (b=="nonhomc") { D(sp,sd,g.n(P.d),affine(g,1,P.d,0.05,va),"D"); }
    else if (b=="clamp") { D(sp,sd,-1,zero,"D"); D(sp,sd,P.d-1,zero,"C"); }
    else if (b=="collapse") { D(sp,sd,g.n(P.d),zero,"X"); }
    P.makeBC();
    return P;
}
} // namespace kl
