// Laminates: builds stacks of plies and records what they answer.
#include "matdef.h"
using namespace kl;
typedef gsMaterialMatrixBase<real_t> MM;
struct PlyDef { Field t, rho, phi; std::string kind; std::vector<double> g; Mat G; };
struct Lam { index_t d; std::vector<PlyDef> p; };
static std::vector<double> row3(const Mat & G) { std::vector<double> r; for (int i=0;i!=3;i++) for (int j=0;j!=3;j++) r.push_back(G(i,j)); return r; }
static PlyDef ply(const Scen & s, Rng & g, std::vector<std::string> & out)
{
    PlyDef p; const std::string th=S(s,"thick"), an=S(s,"angle"), id=S(s,"id"); std::string k=S(s,"ply");
    auto F=[&](double c, double rel){ Field f; f.c=c; f.gx=g.u(-rel,rel); f.gy=g.u(-rel,rel); return f; };
    p.t = th=="equal" ? Field{0.04,0,0} : th=="any" ? Field{g.u(0.01,0.1),0,0} : F(g.u(0.01,0.1),0.15);
    p.phi = an=="zero" ? Field{0,0,0} : an=="right" ? Field{g.n(2)*EIGEN_PI/2,0,0} : an=="diagonal" ? Field{(g.n(2)?1:-1)*EIGEN_PI/4,0,0} : an=="any" ? Field{g.u(-3,3),0,0} : F(g.u(-2,2),0.3);
    p.rho=F(g.u(0.5,3),0.1);
    if (k=="mixed") { static const char * ks[]={"iso","ortho","raw6","raw9"}; k=ks[g.n(4)]; }
    if (k=="iso") { const double E=g.u(1,10), nu=g.u(0.05,0.45); p.kind="ortho"; p.g={E,E,0.5*E/(1+nu),nu}; p.G=gsCompositeMatrix<real_t>(E,E,0.5*E/(1+nu),nu,nu); }
    else if (k=="ortho") { const double E1=g.u(1,20), E2=g.u(1,10), nu=g.u(0.05,0.35), G=g.u(0.3,4), n21=nu*E2/E1; p.kind="ortho"; p.g={E1,E2,G,nu}; p.G=gsCompositeMatrix<real_t>(E1,E2,G,nu,n21); }
    else
    {
        std::vector<double> a; for (int i=0;i!=3;i++) a.push_back(g.u(2,8)); for (int i=0;i!=3;i++) a.push_back(g.u(-1,1));
        p.kind="raw"; p.G = k=="raw6" ? gsCompositeMatrixRaw<real_t>(a[0],a[1],a[2],a[3],a[4],a[5]) : gsCompositeMatrixRaw<real_t>(a[0],a[1],a[2],a[3],a[4],a[5],a[3],a[4],a[5]);
        p.g={a[0],a[3],a[4],a[3],a[1],a[5],a[4],a[5],a[2]};
        if (k=="raw6") out.push_back(Rec().s("t","ply").s("id",id).s("kind","raw6").v("arg",a).v("val",row3(p.G)).str());
        else { for (int i=0;i!=3;i++) a.push_back(g.u(-1,1)); out.push_back(Rec().s("t","ply").s("id",id).s("kind","raw9").v("arg",a).v("val",row3(gsCompositeMatrixRaw<real_t>(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]))).str()); }
    }
    if (p.kind=="ortho") out.push_back(Rec().s("t","ply").s("id",id).s("kind","ortho").v("arg",p.g).v("val",row3(p.G)).str());
    return p;
}
static Lam laminate(const Scen & s, Rng & g, std::vector<std::string> & out)
{
    Lam L; L.d=I(s,"d"); const index_t n=I(s,"layers"); const std::string o=S(s,"order");
    for (index_t k=0;k!=n;k++)
    {
        if (o!="any" && k>=(n+1)/2) { PlyDef p=L.p[n-1-k]; if (o=="anti") p.phi.c*=-1; L.p.push_back(p); }
        else L.p.push_back(ply(s,g,out));
    }
    return L;
}
// ply functions: one for all patches, or a piece for each patch
struct Funs { std::vector<FunPtr> keep; std::vector<gsFunctionSet<real_t>*> T,G,A,R; };
static gsFunctionSet<real_t> * fun(std::vector<FunPtr> & keep, const std::vector<FunPtr> & per)
{
    if (per.size()==1) { keep.push_back(per[0]); return keep.back().get(); }
    gsPiecewiseFunction<real_t> * pw=new gsPiecewiseFunction<real_t>();
    for (size_t k=0;k!=per.size();k++) pw->addPiece(static_cast<const gsFunction<real_t>&>(*per[k]));
    keep.push_back(FunPtr(pw)); return pw;
}
static Funs funs(const std::vector<Lam> & L)
{
    Funs f; for (size_t i=0;i!=L[0].p.size();i++)
    {
        std::vector<FunPtr> t,gm,a,r;
        for (size_t q=0;q!=L.size();q++) { const PlyDef & p=L[q].p[i]; const index_t d=L[q].d; t.push_back(p.t.fun(d)); a.push_back(p.phi.fun(d)); r.push_back(p.rho.fun(d));
            Mat v=p.G; v.resize(9,1); gm.push_back(FunPtr(new gsConstantFunction<real_t>(v,d))); }
        f.T.push_back(fun(f.keep,t)); f.G.push_back(fun(f.keep,gm)); f.A.push_back(fun(f.keep,a)); f.R.push_back(fun(f.keep,r));
    }
    return f;
}
template<MaterialOutput o> static Mat integ(const std::string & door, MM * m, const gsMultiPatch<real_t> & mp, const gsMultiPatch<real_t> & def, index_t patch, const Mat & u)
{
    typedef gsMaterialMatrixIntegrate<real_t,o> Int; memory::unique_ptr<Int> I; gsMaterialMatrixContainer<real_t> c;
    for (size_t p=0;p!=mp.nPatches();p++) c.add(*m);
    if (door=="ptr") I.reset(new Int(m,&def)); else if (door=="ptr2") I.reset(new Int(m,&mp,&def)); else I.reset(new Int(c,&def));
    Mat r; I->piece(patch).eval_into(u,r); return r;
}
static void run(const Scen & s, std::vector<std::string> & out)
{
    const std::string id=S(s,"id"), door=S(s,"door"); Rng g(I(s,"seed")); const index_t d=I(s,"d"), np=I(s,"np"), n=I(s,"n");
    gsMultiPatch<real_t> mp=geometry(S(s,"shape"),d,np,I(s,"deg"),1), defs[2]={deform(mp,S(s,"m1"),g),deform(mp,S(s,"m2"),g)};
    std::vector<Lam> L; for (index_t k=0;k!=(I(s,"pieces")?np:1);k++) L.push_back(laminate(s,g,out));
    Funs f=funs(L); const bool rho=I(s,"rho");
    MM::uPtr m;
    if (d==2) m.reset(rho ? new gsMaterialMatrixComposite<2,real_t>(mp,f.T,f.G,f.A,f.R) : new gsMaterialMatrixComposite<2,real_t>(mp,f.T,f.G,f.A));
    else      m.reset(rho ? new gsMaterialMatrixComposite<3,real_t>(mp,f.T,f.G,f.A,f.R) : new gsMaterialMatrixComposite<3,real_t>(mp,f.T,f.G,f.A));
    if (door=="clone") { MM::uPtr c=m->clone(); m=give(c); }
    const Mat none;
    for (int q=1;q<=6;q++)
    {
        std::string Q=S(s,"q"+util::to_string(q)); if (d==2 && (Q=="M"||Q=="B"||Q=="C"||Q=="D")) Q = Q=="M" ? "N" : "A";
        if (Q=="density" && !rho) Q="thickness";
        if (door=="nodef" && (Q=="N"||Q=="M")) Q="A";
        const index_t patch=g.n(np); const gsMultiPatch<real_t> & def=defs[g.n(2)]; const Lam & l=L[L.size()>1?patch:0];
        Mat u(2,n), z=Mat::Zero(1,n); for (index_t k=0;k!=n;k++) { u(0,k)=g.u(0.03,0.97); u(1,k)=g.u(0.03,0.97); }
        { std::ostringstream os; os<<'['; for (size_t i=0;i!=l.p.size();i++) { const PlyDef & p=l.p[i]; if (i) os<<',';
            os << Rec().v("t",std::vector<double>{p.t.c,p.t.gx,p.t.gy}).v("rho",std::vector<double>{p.rho.c,p.rho.gx,p.rho.gy}).s("kind",p.kind).v("g",p.g).str(); } os<<']';
          out.push_back(Rec().s("t","lam").s("id",id).i("d",d).raw("plies",os.str()).str()); }
        { std::ostringstream os; os<<'['; for (index_t k=0;k!=n;k++) { Mat x=mp.patch(patch).eval(u.col(k)); if (k) os<<',';
            std::ostringstream cs; cs<<'['; for (size_t i=0;i!=l.p.size();i++) { const double a=l.p[i].phi.at(x(0,0),x(1,0)); if (i) cs<<','; cs<<'['; putReal(cs,std::cos(a)); cs<<','; putReal(cs,std::sin(a)); cs<<']'; } cs<<']';
            os << Rec().v("x",x).raw("ori",surf(mp.patch(patch),u,k)).raw("def",surf(def.patch(patch),u,k)).raw("cs",cs.str()).str(); } os<<']';
          out.push_back(Rec().s("t","pts").s("id",id).i("n",n).raw("p",os.str()).str()); }
        Rec r; r.s("t","q").s("id",id).s("q",Q).b("def",door!="nodef");
        try
        {
            Mat v; const bool direct = door=="direct"||door=="clone"||door=="nodef";
            if (direct) { m->setUndeformed(&mp); if (door!="nodef") m->setDeformed(&def); }
            #define ASK(o) (direct ? (MaterialOutput::o==MaterialOutput::VectorN||MaterialOutput::o==MaterialOutput::VectorM ? m->eval3D_vector(patch,u,z,MaterialOutput::o) : m->eval3D_matrix(patch,u,z,MaterialOutput::o)) : integ<MaterialOutput::o>(door,m.get(),mp,def,patch,u))
            if (Q=="A") v=ASK(MatrixA); else if (Q=="B") v=ASK(MatrixB); else if (Q=="C") v=ASK(MatrixC); else if (Q=="D") v=ASK(MatrixD);
            else if (Q=="N") v=ASK(VectorN); else if (Q=="M") v=ASK(VectorM);
            else if (Q=="thickness") m->thickness_into(patch,u,v);
            else if (direct) m->density_into(patch,u,v); else v=integ<MaterialOutput::Density>(door,m.get(),mp,def,patch,u);
            r.s("how","ok").i("rows",v.rows()).i("cols",v.cols()).cols("val",v);
        }
        catch (const std::exception & e) { r.s("how","throw").i("rows",0).i("cols",0).raw("val","[]").s("what",std::string(e.what()).substr(0,160)); }
        out.push_back(r.str());
    }
}
int main(int c, char ** v) { return runAll(c,v,run); }
