// Frames and parametrisations: carries a problem through motions of space and changes of parametrisation
// and records the same observables of every version.
#include "shell.h"
using namespace kl;
typedef gsSparseMatrix<real_t> Sp;
typedef gsTensorBSpline<2,real_t> TB;
typedef std::vector<TB> Patches;
struct Place { index_t patch; Vec u; double z; };
struct Edge { index_t patch, side, f; };
struct World
{
    index_t d; bool bend; index_t cont;
    Patches ori, def; std::vector<Patches> v;
    std::vector<MatDef> md;                 // one per patch
    Vec force; std::vector<Vec> trac; std::vector<Edge> edges; std::vector<Place> loads; std::vector<Vec> lf;
    bool pressOn, foundOn; double p, k; std::vector<Place> look;
    std::vector<Patches*> all() { std::vector<Patches*> r; r.push_back(&ori); r.push_back(&def); for (size_t i=0;i!=v.size();i++) r.push_back(&v[i]); return r; }
    std::vector<Place*> places() { std::vector<Place*> r; for (size_t i=0;i!=loads.size();i++) r.push_back(&loads[i]); for (size_t i=0;i!=look.size();i++) r.push_back(&look[i]); return r; }
    static gsMultiPatch<real_t> mp(const Patches & q, bool top) { gsMultiPatch<real_t> m; for (size_t i=0;i!=q.size();i++) m.addPatch(q[i]); if (top) { m.computeTopology(1e-9); m.addAutoBoundaries(); } return m; }
    static void map(Patches & q, const Mat & Q, const Mat & t) { for (size_t i=0;i!=q.size();i++) { Mat & c=q[i].coefs(); c = ((c*Q.transpose()).rowwise()+t.transpose().row(0)).eval(); } }
    double lo(index_t p, index_t k) const { return ori[p].knots(k).first(); }
    double hi(index_t p, index_t k) const { return ori[p].knots(k).last(); }
    void rev(index_t p, index_t k)
    {
        const double s=lo(p,k)+hi(p,k);
        for (Patches * q : all()) (*q)[p].reverse(k);
        for (Place * x : places()) if (x->patch==p) { x->u[k]=s-x->u[k]; x->z=-x->z; }
        for (Edge & e : edges) if (e.patch==p && (e.side-1)/2==k) e.side = e.side%2 ? e.side+1 : e.side-1;
    }
    void swap(index_t p)
    {
        for (Patches * q : all()) (*q)[p].swapDirections(0,1);
        for (Place * x : places()) if (x->patch==p) { std::swap(x->u[0],x->u[1]); x->z=-x->z; }
        for (Edge & e : edges) if (e.patch==p) e.side = e.side<3 ? e.side+2 : e.side-2;
    }
    void scale(index_t p, index_t k, double a, double b)
    {
        const double l=lo(p,k), h=hi(p,k);
        for (Patches * q : all()) (*q)[p].knots(k).affineTransformTo(a,b);
        for (Place * x : places()) if (x->patch==p) x->u[k]=a+(x->u[k]-l)*(b-a)/(h-l);
    }
    bool split(index_t p, index_t k)
    {
        const gsKnotVector<real_t> & kv=ori[p].knots(k); std::vector<double> un; for (gsKnotVector<real_t>::uiterator it=kv.ubegin(); it!=kv.uend(); ++it) un.push_back(*it);
        if (un.size()<3) return false;
        const double xi=un[un.size()/2]; const index_t n=ori.size();
        for (Patches * q : all()) { TB L,R; (*q)[p].splitAt(k,xi,L,R); (*q)[p]=L; q->push_back(R); }
        md.push_back(md[p]);
        for (Place * x : places()) if (x->patch==p && x->u[k]>xi) x->patch=n;
        std::vector<Edge> e2;
        for (Edge e : edges) { if (e.patch==p) { if (e.side==2*k+2) e.patch=n; else if (e.side!=2*k+1) { Edge f=e; f.patch=n; e2.push_back(f); } } e2.push_back(e); }
        edges=e2; return true;
    }
    void order()
    {
        const index_t n=ori.size();
        for (Patches * q : all()) std::reverse(q->begin(),q->end());
        std::reverse(md.begin(),md.end());
        for (Place * x : places()) x->patch=n-1-x->patch;
        for (Edge & e : edges) e.patch=n-1-e.patch;
    }
};
static Vec vecOf(const World & W, const gsDofMapper & m, const Patches & f)
{
    Vec r=Vec::Zero(m.freeSize());
    for (size_t p=0;p!=f.size();p++) for (index_t k=0;k!=f[p].coefs().rows();k++) for (index_t j=0;j!=W.d;j++) if (m.is_free(k,p,j)) r[m.index(k,p,j)]=f[p].coefs()(k,j);
    return r;
}
static void observe(World & W, const std::string & id, index_t step, std::vector<std::string> & out)
{
    Rec r; r.s("t","obs").s("id",id).i("step",step);
    const index_t d=W.d; gsMultiPatch<real_t> mp=World::mp(W.ori,true), def=World::mp(W.def,false);
    for (int load=0;load!=2;load++)
    {
        Problem P; P.d=d; P.bend=W.bend; P.mp=mp; P.basis=gsMultiBasis<real_t>(P.mp); P.many=true; P.md=W.md;
        for (size_t p=0;p!=P.md.size();p++) { P.mm.push_back(P.md[p].make(P.mp)); P.cont.add(P.mm.back().get()); }
        auto con=[&](const Vec & f, index_t dom){ Affine a; a.dom=dom; a.c=Mat::Zero(f.rows(),4); a.c.col(0)=f; return a; };
        P.forcePar=d==2; P.force=con(load?W.force:Vec::Zero(d),d==2?2:3);
        if (load)
        {
            for (const Edge & e : W.edges) { SideCond c; c.type="N"; c.patch=e.patch; c.side=e.side; c.comp=-1; c.par=false; c.f=con(W.trac[e.f],d); P.sides.push_back(c); }
            for (size_t k=0;k!=W.loads.size();k++) { PLoad l; l.patch=W.loads[k].patch; l.par=true; l.u=l.at=W.loads[k].u; l.f=W.lf[k]; P.pl.push_back(l); }
            Vec one(1), thr(3); one<<W.p; thr.setConstant(W.k);
            P.pressOn=W.pressOn; P.press=con(one,d); P.foundOn=W.foundOn; P.found=con(thr,d);
        }
        P.makeBC(); memory::unique_ptr<Shell> A(P.make(false)); P.apply(*A);
        { gsOptionList o=A->options(); o.setInt("Continuity",W.cont); A->setOptions(o); }
        const gsDofMapper m=A->getMapper(); Vec v[2]={vecOf(W,m,W.v[0]),vecOf(W,m,W.v[1])};
        bool ok=true; std::vector<double> val, sc;
        auto lin=[&](const Mat & b){ for (int k=0;k!=2;k++) { if (b.rows()!=m.freeSize()) { ok=false; return; } val.push_back(v[k].dot(b.col(0))); sc.push_back(v[k].cwiseAbs().dot(b.col(0).cwiseAbs())); } };
        auto quad=[&](const Sp & K){ if (K.rows()!=m.freeSize()||K.cols()!=m.freeSize()) { ok=false; return; } const double a=v[0].dot(K*v[0]), b=v[1].dot(K*v[1]); val.push_back(v[0].dot(K*v[1])); val.push_back(v[1].dot(K*v[0])); val.push_back(a); for (int q=0;q!=3;q++) sc.push_back(std::abs(a)+std::abs(b)); };
        const ThinShellAssemblerStatus good=ThinShellAssemblerStatus::Success;
        ok = A->assemble()==good && ok; quad(A->matrix()); lin(A->rhs());
        ok = A->assemble(def)==good && ok; quad(A->matrix()); lin(A->rhs());
        if (!load) { ok = A->assembleMass()==good && ok; quad(A->massMatrix());
            const double ar[3]={A->getArea(def),A->getArea(mp),A->getElasticEnergy(def)}; for (int q=0;q!=3;q++) { val.push_back(ar[q]); sc.push_back(q<2?1:sc[4]); } }
        const std::string n=load?"all":"int"; r.b((n+"ok").c_str(),ok).v(n.c_str(),val).v((n+"s").c_str(),sc);
        if (!load)
        {   // material points
            std::ostringstream o; o<<'[';
            for (size_t k=0;k!=W.look.size();k++)
            {
                const Place & x=W.look[k]; Mat u=x.u, z(1,1); z<<(d==2?0:x.z); MM * mm=P.mm[x.patch].get(); mm->setDeformed(&def);
                if (k) o<<','; Rec q; q.v("stretch",mm->eval3D_pstretch(x.patch,u,z)).v("strain",mm->eval3D_pstrain(x.patch,u,z)).v("stress",mm->eval3D_pstress(x.patch,u,z,MaterialOutput::Generic)).v("true",mm->eval3D_CauchyPStress(x.patch,u,z,MaterialOutput::Generic))
                 .v("E",std::vector<double>{W.md[x.patch].par[0].c}); z(0,0)=0;
                q.v("s",mm->eval3D_stress(x.patch,u,z,MaterialOutput::Generic)).raw("ori",surf(mp.patch(x.patch),u,0)); o<<q.str();
            }
            o<<']'; r.raw("pts",o.str());
        }
    }
    out.push_back(r.str());
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"); Rng g(I(s,"seed")); World W; W.d=I(s,"d"); const index_t d=W.d; W.bend=d==3 && I(s,"bend"); W.cont=I(s,"cont"); const index_t np=I(s,"np");
    gsMultiPatch<real_t> mp=geometry(S(s,"shape"),d,np,I(s,"deg"),1), def=deform(mp,S(s,"motion"),g);
    for (index_t p=0;p!=np;p++)
    {
        W.ori.push_back(dynamic_cast<TB&>(mp.patch(p))); W.def.push_back(dynamic_cast<TB&>(def.patch(p)));
        Scen t=s; t["par"]="const"; W.md.push_back(matdef(t,g)); W.md.back().thick.c=g.u(0.08,0.4);
    }
    {   // conforming virtual fields
        gsMultiBasis<real_t> b(mp); gsDofMapper m; b.getMapper(iFace::glue,m); 
        for (int k=0;k!=2;k++) { Patches f; Mat c=Mat(m.freeSize(),d); for (index_t i=0;i!=c.rows();i++) for (index_t j=0;j!=d;j++) c(i,j)=g.u(-1,1);
            for (index_t p=0;p!=np;p++) { TB q=W.ori[p]; for (index_t i=0;i!=q.coefs().rows();i++) q.coefs().row(i)=c.row(m.index(i,p)); f.push_back(q); } W.v.push_back(f); }
    }
    const long L=I(s,"loads"); W.force=Vec::Zero(d); if (L&1) for (index_t i=0;i!=d;i++) W.force[i]=g.u(-1,1);
    auto rv=[&]{ Vec f(d); for (index_t i=0;i!=d;i++) f[i]=g.u(-1,1); return f; };
    if (L&2) { W.trac.push_back(rv()); Edge e; e.patch=g.n(np); e.side=1+g.n(4); if (np==2 && e.side==(e.patch==0?2:1)) e.side=3+g.n(2); e.f=0; W.edges.push_back(e); }
    W.pressOn=d==3 && (L&4); W.p=g.u(-1,1); W.foundOn=d==3 && (L&8); W.k=g.u(0.3,1);
    if (L&16) { Place l; l.patch=g.n(np); l.u.resize(2); l.u<<g.u(0.05,0.45),g.u(0.55,0.95); l.z=0; W.loads.push_back(l); W.lf.push_back(rv()); }
    for (int k=0;k!=2;k++) { Place l; l.patch=g.n(np); l.u.resize(2); l.u<<g.u(0.05,0.95),g.u(0.05,0.95); l.z=g.u(-0.5,0.5); W.look.push_back(l); }
    { Rec r; r.s("t","world").s("id",id).i("d",d).b("bend",W.bend).s("motion",S(s,"motion")).s("law",S(s,"law")); out.push_back(r.str()); }
    observe(W,id,0,out);
    for (index_t i=1;;i++)
    {
        const std::string key="a"+util::to_string(i); if (!s.count(key)) break;
        const std::string a=S(s,key); const index_t which=I(s,"p"+util::to_string(i)); const index_t n=W.ori.size();
        Mat Q=Mat::Identity(d,d), t=Mat::Zero(d,1); bool done=true;
        std::vector<index_t> on; for (index_t p=0;p!=n;p++) if (which==0 || p==(which-1)%n) on.push_back(p);
        if (a=="move"||a=="turn"||a=="mirror")
        {
            const double x=g.u(-3,3), y=g.u(-1.5,1.5); Q(0,0)=Q(1,1)=std::cos(x); Q(0,1)=-std::sin(x); Q(1,0)=std::sin(x);
            if (d==3) { Mat X=Mat::Identity(3,3); X(1,1)=X(2,2)=std::cos(y); X(1,2)=-std::sin(y); X(2,1)=std::sin(y); Q=(X*Q).eval(); }
            if (a=="mirror") Q.row(g.n(d))*=-1;
            for (index_t j=0;j!=d;j++) t(j,0)=g.u(-2,2);
            World::map(W.def,Q,t); const Mat o=Mat::Zero(d,1); for (size_t k=0;k!=W.v.size();k++) World::map(W.v[k],Q,o);
            if (a!="turn") { World::map(W.ori,Q,t); W.force=(Q*W.force).eval(); for (Vec & f : W.trac) f=(Q*f).eval(); for (Vec & f : W.lf) f=(Q*f).eval(); }
            if (a=="mirror") { W.p=-W.p; for (Place * x : W.places()) x->z=-x->z; }
        }
        else if (a=="rev0"||a=="rev1") { for (index_t p : on) W.rev(p,a=="rev1"); if (which==0) W.p=-W.p; }
        else if (a=="swap") { for (index_t p : on) W.swap(p); if (which==0) W.p=-W.p; }
        else if (a=="scale0"||a=="scale1") { const double lo=g.u(-2,2), l=std::exp(g.u(-1.5,1.5)); for (index_t p : on) W.scale(p,a=="scale1",lo,lo+l); }
        else if (a=="split0"||a=="split1") { for (index_t p : on) done=W.split(p,a=="split1"); }
        else if (a=="order") W.order();
        else GISMO_ERROR("action "<<a);
        if (!done) continue;
        out.push_back(Rec().s("t","act").s("id",id).s("a",a).i("which",which).b("press",W.pressOn).cols("Q",Mat(Q.transpose())).str());
        observe(W,id,i,out);
    }
}
int main(int c, char ** v) { return runAll(c,v,run,200); }
